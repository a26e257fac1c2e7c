From cc36eb76da8622c78ea5ed5bd7f2bf86aac9c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 01/92] fix: DataFrame objects created from pandas data with
 non-positional labels

---
 nimble/core/_createHelpers.py | 5 +++--
 nimble/core/data/dataframe.py | 5 +++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 34b055b..917540b 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -458,8 +458,9 @@ def extractNamesFromPdDataFrame(rawData, pnamesID, fnamesID, copied):
     Output the index of rawData as pointNames.
     Output the columns of rawData as featureNames.
     """
-    firstRow = rawData.iloc[0] if len(rawData) > 0 else None
-    secondRow = rawData.iloc[1] if len(rawData) > 1 else None
+    # positional access is needed and the labels of rawData can be anything
+    firstRow = rawData.iloc[0].tolist() if len(rawData) > 0 else None
+    secondRow = rawData.iloc[1].tolist() if len(rawData) > 1 else None
     pnamesID, fnamesID = autoDetectNamesFromRaw(pnamesID, fnamesID, firstRow,
                                                 secondRow)
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index e4b15e7..85bd880 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -77,6 +77,11 @@ class DataFrame(Base):
                 self._data = data.copy()
         else:
             self._data = pd.DataFrame(data, copy=True)
+        # names are stored in the axes, the labels must match the positions
+        for axis, length in enumerate(self._data.shape):
+            if not self._data.axes[axis].equals(pd.RangeIndex(length)):
+                self._data = self._data.set_axis(pd.RangeIndex(length),
+                                                 axis=axis)
 
         shape = kwds.get('shape', None)
         if shape is None:
-- 
2.43.0


From c0ace77d0f6f5b46ad0442c141816845794270b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 02/92] fix: inserting data when the off axis is only partially
 named

---
 nimble/core/data/axis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 636551e..d0f124b 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1467,10 +1467,11 @@ class Axis(ABC):
         # _validateInsertableData before this helper, most of the toInsert
         # cases will have already caused an exception
         if offAxisObj._namesCreated() and toInsertAxis._namesCreated():
-            objAllDefault = offAxisObj._allDefaultNames()
-            toInsertAllDefault = toInsertAxis._allDefaultNames()
+            # with any default names, the order was validated to be the same
+            anyDefault = (offAxisObj._anyDefaultNames()
+                          or toInsertAxis._anyDefaultNames())
             reorder = offAxisObj.getNames() != toInsertAxis.getNames()
-            if not (objAllDefault or toInsertAllDefault) and reorder:
+            if not anyDefault and reorder:
                 # use copy when reordering so toInsert object is not modified
                 toInsert = toInsert.copy()
                 toInsert._getAxis(self._offAxis).permute(offAxisObj.getNames())
-- 
2.43.0


From c3240065c0fe8e8887dd0ca0663e4558a04fb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 03/92] fix: setNames with oldIdentifiers left names
 inconsistent for repeated None, names or identifiers

---
 nimble/core/data/axis.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d0f124b..3ebd5dc 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -288,10 +288,16 @@ class Axis(ABC):
                         oldName = self.namesInverse[index]
                     oldNames.append(oldName)
 
+                newNames = [n for n in assignments if n is not None]
+                if (len(set(indices)) != len(indices)
+                        or len(set(newNames)) != len(newNames)):
+                    msg = "Cannot input duplicate names or identifiers"
+                    raise InvalidArgumentValue(msg)
                 old_dict = dict(zip(oldNames,indices))
-                assignments_dict = dict(zip(assignments, indices))
+                # None can be assigned to more than one index
+                assignments_list = list(zip(assignments, indices))
                  # iterate through list of assignments, // how do you match this with old identifiers?
-                for name, index in assignments_dict.items():
+                for name, index in assignments_list:
                     # verifying that none of the new assignments is used previously
                     if name in self.names:
                         if self.namesInverse[index] == name:
@@ -305,7 +311,7 @@ class Axis(ABC):
                 for name, index in old_dict.items():
                     if name is not None:
                         del self.names[name]
-                for name, index in assignments_dict.items():
+                for name, index in assignments_list:
                     self.namesInverse[index] = name
                     if name is not None:
                         self.names[name] = index
-- 
2.43.0


From 0e29a3d33f39a040e198c4330def217db43e2bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 04/92] fix: repeat when some or all of the names are default

---
 nimble/core/data/axis.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 3ebd5dc..2618e61 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -825,23 +825,26 @@ class Axis(ABC):
             namesToRepeat = ftNames
             ptNames = self._base.points._getNamesNoGeneration()
 
+        def copyName(name, i):
+            return None if name is None else name + "_" + str(i + 1)
+
         if copyVectorByVector and namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for idx, name in enumerate(origNames):
                 for i in range(totalCopies):
                     currIdx = (totalCopies * idx) + i
                     if currIdx < len(origNames):
-                        namesToRepeat[currIdx] = name + "_" + str(i + 1)
+                        namesToRepeat[currIdx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
         elif namesToRepeat is not None:
             origNames = namesToRepeat.copy()
             for i in range(totalCopies):
                 for idx, name in enumerate(origNames):
                     if i == 0:
-                        namesToRepeat[idx] = name + "_" + str(i + 1)
+                        namesToRepeat[idx] = copyName(name, i)
                     else:
-                        namesToRepeat.append(name + "_" + str(i + 1))
+                        namesToRepeat.append(copyName(name, i))
 
         ret = createDataNoValidation(self._base.getTypeString(), repeated,
                                      pointNames=ptNames, featureNames=ftNames)
-- 
2.43.0


From 5dd8b1a5938c91cad4a8f7b6cb956e78db4fe3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 05/92] fix: inserting a view into a Sparse object inserted
 zeros

---
 nimble/core/data/sparseAxis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index e71e67c..c2d4ee4 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -129,6 +129,9 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         from this object will continue below the inserted
         points/features.
         """
+        if isinstance(toInsert, nimble.core.data.BaseView):
+            # a view does not store the data of its limited range
+            toInsert = toInsert.copy()
         selfData = self._base._data.data
         addData = toInsert._data.data
         newData = np.concatenate((selfData, addData))
-- 
2.43.0


From c1c5c60e363e34d22989cb5a1b2b85980eb1c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 06/92] fix: calculateOnElements result type determined by its
 first element, and text results read as names

Results were stored in an array of the type of the first result (0.5 became 0
after an int), a first row of text could be taken as feature names, limiting a
Sparse object with preserveZeros gave the wrong shape, and axis.calculate with
limitTo listing every member kept the names in the original order.
---
 nimble/core/data/_dataHelpers.py | 14 ++++++++++++++
 nimble/core/data/axis.py         |  4 +---
 nimble/core/data/base.py         | 18 +++++++-----------
 nimble/core/data/sparse.py       | 25 +++----------------------
 4 files changed, 25 insertions(+), 36 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index ce95dca..2277500 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -23,6 +23,7 @@ the main data wrapper objects defined in this module.
 import math
 import re
 from functools import wraps
+from numbers import Number
 import os.path
 
 import numpy as np
@@ -703,6 +704,19 @@ def _getDictionaryMappingFunction(dictionary):
         return value
     return valueMappingFunction
 
+def applyElementFunction(function, values):
+    """
+    Array of the results of applying the function to each value.
+
+    The type of the array must be able to represent every result, so it
+    cannot be determined from the first result only.
+    """
+    ret = np.vectorize(function, otypes=[np.object_])(values)
+    if all(isinstance(val, (Number, np.number, np.bool_))
+           for val in ret.ravel()):
+        ret = ret.astype(np.array(ret.ravel().tolist()).dtype)
+    return ret
+
 class ElementIterator1D(object):
     """
     Object providing iteration through each item in the axis.
diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 2618e61..85da317 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -563,13 +563,11 @@ class Axis(ABC):
             axisNameSetter = ret.features.setNames
             offAxisNameSetter = ret.points.setNames
 
-        if len(limitTo) < len(self) and self._namesCreated():
+        if self._namesCreated():
             names = []
             for index in limitTo:
                 names.append(self._getName(index))
             axisNameSetter(names, useLog=False)
-        elif self._namesCreated():
-            axisNameSetter(self._getNames(), useLog=False)
         if offAxisNames is not None:
             offAxisNameSetter(offAxisNames, useLog=False)
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 99cefb1..3ccf06d 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -55,6 +55,7 @@ from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
+from ._dataHelpers import applyElementFunction
 from ._dataHelpers import ElementIterator1D
 from ._dataHelpers import limitedTo2D
 from ._dataHelpers import arrangeFinalTable
@@ -1088,11 +1089,10 @@ class Base(ABC):
             optType = outputType
         else:
             optType = self.getTypeString()
-        # Use vectorized for functions with oneArg
+        # Each type can apply functions with oneArg to all of its elements
         if calculator.oneArg:
-            vectorized = np.vectorize(calculator)
             values = self._calculate_implementation(
-                vectorized, points, features, preserveZeros)
+                calculator, points, features, preserveZeros)
 
         else:
             if not points:
@@ -1116,7 +1116,8 @@ class Base(ABC):
                     fIdx += 1
                 pIdx += 1
 
-        ret = nimble.data(values, returnType=optType, treatAsMissing=[None],
+        ret = nimble.data(values, pointNames=False, featureNames=False,
+                          returnType=optType, treatAsMissing=[None],
                           useLog=False)
 
         ret._absPath = self.absolutePath
@@ -1137,13 +1138,8 @@ class Base(ABC):
         toCalculate = self.copy(to='numpyarray')
         # array with only desired points and features
         toCalculate = toCalculate[points[:, None], features]
-        try:
-            return function(toCalculate)
-        except Exception: # pylint: disable=broad-except
-            # change output type of vectorized function to object to handle
-            # nonnumeric data
-            function.otypes = [np.object_]
-            return function(toCalculate)
+
+        return applyElementFunction(function, toCalculate)
 
     @limitedTo2D
     def countElements(self, condition):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45605e8..eaf9c6c 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -39,6 +39,7 @@ from .sparseAxis import SparsePoints, SparsePointsView
 from .sparseAxis import SparseFeatures, SparseFeaturesView
 from .stretch import StretchSparse
 from ._dataHelpers import allDataIdentical
+from ._dataHelpers import applyElementFunction
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import denseCountUnique
@@ -209,33 +210,13 @@ class Sparse(Base):
             preserveZeros = False
         # all data
         if preserveZeros and points is None and features is None:
-            try:
-                data = function(data)
-            except Exception: # pylint: disable=broad-except
-                function.otypes = [np.object_]
-                data = function(data)
+            data = applyElementFunction(function, data)
             shape = self._data.shape
             values = scipy.sparse.coo_matrix((data, (row, col)), shape=shape)
             # note: even if function transforms nonzero values into zeros
             # our init methods will filter them out from the data attribute
             return values
-        # subset of data
-        if preserveZeros:
-            dataSubset = []
-            rowSubset = []
-            colSubset = []
-            for idx, val in enumerate(data):
-                if row[idx] in points and col[idx] in features:
-                    rowSubset.append(row[idx])
-                    colSubset.append(col[idx])
-                    dataSubset.append(val)
-            dataSubset = function(dataSubset)
-            values = scipy.sparse.coo_matrix((dataSubset,
-                                              (rowSubset, colSubset)))
-            # note: even if function transforms nonzero values into zeros
-            # our init methods will filter them out from the data attribute
-            return values
-        # zeros not preserved
+        # subset of data or zeros not preserved
         return self._calculate_genericVectorized(function, points, features)
 
     def _countUnique_implementation(self, points, features):
-- 
2.43.0


From 51091065e75c46dd79b60270138948dd56a21aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 07/92] fix: a view of a view resolved identifiers against the
 source, and views could be assigned to

---
 nimble/core/data/views.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nimble/core/data/views.py b/nimble/core/data/views.py
index 4e36deb..6ad8433 100644
--- a/nimble/core/data/views.py
+++ b/nimble/core/data/views.py
@@ -119,25 +119,25 @@ class BaseView(Base, metaclass=ABCMeta):
         if pointStart is None:
             psAdj = None if len(self._source.points) == 0 else self._pStart
         else:
-            psIndex = self._source.points.getIndex(pointStart)
+            psIndex = self.points.getIndex(pointStart)
             psAdj = psIndex + self._pStart
 
         if pointEnd is None:
             peAdj = None if len(self._source.points) == 0 else self._pEnd - 1
         else:
-            peIndex = self._source.points.getIndex(pointEnd)
+            peIndex = self.points.getIndex(pointEnd)
             peAdj = peIndex + self._pStart
 
         if featureStart is None:
             fsAdj = None if len(self._source.features) == 0 else self._fStart
         else:
-            fsIndex = self._source.features.getIndex(featureStart)
+            fsIndex = self.features.getIndex(featureStart)
             fsAdj = fsIndex + self._fStart
 
         if featureEnd is None:
             feAdj = None if len(self._source.features) == 0 else self._fEnd - 1
         else:
-            feIndex = self._source.features.getIndex(featureEnd)
+            feIndex = self.features.getIndex(featureEnd)
             feAdj = feIndex + self._fStart
 
         return self._source._view_backend(psAdj, peAdj, fsAdj, feAdj,
@@ -197,6 +197,10 @@ class BaseView(Base, metaclass=ABCMeta):
     ##################################################################
     ##################################################################
 
+    @baseExceptionDoc
+    def __setitem__(self, key, value):
+        readOnlyException("__setitem__")
+
     @baseExceptionDoc
     def transformElements(self, toTransform, points=None, features=None,
                           preserveZeros=False, skipNoneReturnValues=False,
-- 
2.43.0


From 3ed06989d6114068ce94d3459903230251b2d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 08/92] fix: replaceRectangle and item assignment

replaceRectangle computed the default featureEnd from the number of points, did
not check that the object fits, truncated floats put into int data and left a
stale index in Sparse objects; obj[p, :] = value failed.
---
 nimble/core/data/base.py   | 60 +++++++++++++++++++++++++-------------
 nimble/core/data/matrix.py |  8 +++--
 nimble/core/data/sparse.py | 51 +++++++++++++++++---------------
 3 files changed, 72 insertions(+), 47 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 3ccf06d..9e67934 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -45,7 +45,7 @@ from nimble.exceptions import InvalidArgumentValueCombination
 from nimble.core.logger import handleLogging, LogID
 from nimble.match import QueryString
 from nimble._utility import cloudpickle, h5py, plt, IPython, pd
-from nimble._utility import isDatetime
+from nimble._utility import isAllowedSingleElement, isDatetime
 from nimble._utility import tableString, prettyListString, quoteStrings
 from nimble._utility import _getStatsFunction, acceptedStats
 from .stretch import Stretch
@@ -460,7 +460,7 @@ class Base(ABC):
         raise ImproperObjectAction(msg)
 
     def __bool__(self):
-        return self._dims[0] > 0 and self._dims[-1] > 0
+        return bool(self._dims[0] > 0 and self._dims[-1] > 0)
 
     @limitedTo2D
     def iterateElements(self, order='point', only=None):
@@ -2234,28 +2234,40 @@ class Base(ABC):
         x, y = key
         
         # Validate single or multiple indices for 'x'
-        single_x = isinstance(x, (int, float, str, np.integer))
-        if single_x:
-            x = self.points._getIndex(x, allowFloats=True)
+        if isinstance(x, (int, float, str, np.integer)):
+            x = [self.points._getIndex(x, allowFloats=True)]
         else:
             x = self.points._processMultiple(x)
-        
+            if x is None: # full slice
+                x = list(range(len(self.points)))
+
         # Validate single or multiple indices for 'y'
-        single_y = isinstance(y, (int, float, str, np.integer))
-        if single_y:
-            y = self.features._getIndex(y, allowFloats=True)
+        if isinstance(y, (int, float, str, np.integer)):
+            y = [self.features._getIndex(y, allowFloats=True)]
         else:
             y = self.features._processMultiple(y)
-        
-        # Perform setting operation based on single or multiple indices
-        if single_x and single_y:
-            self._setitem_implementation(x, y, value)
+            if y is None: # full slice
+                y = list(range(len(self.features)))
+
+        # A single value is set at each location, otherwise there must be one
+        # value for each location
+        if isAllowedSingleElement(value):
+            values = [value] * (len(x) * len(y))
         else:
-            for i in x:
-                for j in y:
-                    self._setitem_implementation(i, j, value)
-        
-    
+            if isinstance(value, Base):
+                value = value.copy('python list')
+            values = np.array(value, dtype=np.object_).ravel().tolist()
+            if len(values) != len(x) * len(y):
+                msg = f"The number of values ({len(values)}) does not match "
+                msg += f"the number of locations ({len(x) * len(y)})"
+                raise InvalidArgumentValue(msg)
+            if not all(isAllowedSingleElement(val) for val in values):
+                msg = "Each value must be a number, string, None, or nan"
+                raise InvalidArgumentValue(msg)
+
+        for (i, j), val in zip(itertools.product(x, y), values):
+            self._setitem_implementation(i, j, val)
+
     def pointView(self, identifier):
         """
         A read-only view of a single point.
@@ -3960,7 +3972,7 @@ class Base(ABC):
                         start=pointStart, end=pointEnd, rangeLen=prange)
                     raise InvalidArgumentValueCombination(msg)
             if featureEnd is None:
-                feIndex = fsIndex + len(replaceWith.points) - 1
+                feIndex = fsIndex + len(replaceWith.features) - 1
             else:
                 feIndex = self.features.getIndex(featureEnd)
                 frange = (feIndex - fsIndex) + 1
@@ -3969,7 +3981,15 @@ class Base(ABC):
                         axis='feature', axisLen=len(replaceWith.features),
                         start=featureStart, end=featureEnd, rangeLen=frange)
                     raise InvalidArgumentValueCombination(msg)
-            if replaceWith.getTypeString() != self.getTypeString():
+            if (peIndex >= len(self.points) or feIndex >= len(self.features)
+                    or peIndex < psIndex or feIndex < fsIndex):
+                msg = "replaceWith does not fit in this object at the "
+                msg += f"location given by pointStart ({pointStart}) and "
+                msg += f"featureStart ({featureStart})"
+                raise InvalidArgumentValueCombination(msg)
+            if (replaceWith.getTypeString() != self.getTypeString()
+                    or isinstance(replaceWith,
+                                  nimble.core.data.BaseView)):
                 replaceWith = replaceWith.copy(to=self.getTypeString())
         elif looksNumeric(replaceWith):
             if pointEnd is None:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 0fd5a76..e1536dd 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -225,11 +225,13 @@ class Matrix(Base):
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
         if not isinstance(replaceWith, Base):
-            values = replaceWith * np.ones((pointEnd - pointStart + 1,
-                                            featureEnd - featureStart + 1))
+            values = np.array(replaceWith)
         else:
             values = replaceWith._data
 
+        newType = np.result_type(self._data.dtype, values.dtype)
+        if newType != self._data.dtype:
+            self._data = self._data.astype(newType)
         # numpy is exclusive
         pointEnd += 1
         featureEnd += 1
@@ -401,7 +403,7 @@ class Matrix(Base):
         return self._data[x, y]
     
     def _setitem_implementation(self, x, y, value):
-        self._data[x, y] = value
+        self._data = modifyNumpyArrayValue(self._data, (x, y), value)
 
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index eaf9c6c..81d3ca8 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -198,6 +198,7 @@ class Sparse(Base):
         if all(issubclass(type(d), numbers.Number) for d in self._data.data):
             self._data.data = np.array(list(self._data.data))
         self._data.eliminate_zeros()
+        self._resetSorted()
 
     def _calculate_implementation(self, function, points, features,
                                   preserveZeros):
@@ -402,6 +403,14 @@ class Sparse(Base):
         # _replaceRectangle_zeros_implementation; unnecessary for that helper
         self._sortInternal('point', setIndices=True)
 
+        # the current values and the new values must share a type
+        if constant:
+            newType = np.array(replaceWith).dtype
+        else:
+            newType = replaceWith._data.data.dtype
+        newType = np.result_type(self._data.data.dtype, newType)
+        self._data.data = self._data.data.astype(newType)
+
         selfIdx = 0
         valsIdx = 0
         copyIndex = 0
@@ -589,6 +598,7 @@ class Sparse(Base):
         shape = (len(self.points), len(self.features))
         self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
                                              shape)
+        self._resetSorted()
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
@@ -823,33 +833,26 @@ class Sparse(Base):
             
         # binary search
         start, end = self._sorted['indices'][axisVal:axisVal + 2]
-        if start != end:
-            k = np.searchsorted(offAxis[start:end], offAxisVal) + start
-            if k < end and offAxis[k] == offAxisVal:
-                if value != 0:
-                    self._data.data[k] = value  # Update existing entry
-                else:
-                    # Remove entry if value is zero (maintain sparsity)
-                    self._data.data = np.delete(self._data.data, k)
-                    self._data.row = np.delete(self._data.row, k)
-                    self._data.col = np.delete(self._data.col, k)
-                    # Re-sort and re-index
-                    self._sortInternal(self._sorted['axis'], setIndices=True, forceSort=True)
-                return
-        if value != 0:
-            numPts = len(list(self.points))
-            numFts = len(list(self.features))
-            # Insert new entry if value is not zero
-            self._data.data = np.append(self._data.data, value)
-            self._data.row = np.append(self._data.row, x)
-            self._data.col = np.append(self._data.col, y)
+        k = np.searchsorted(offAxis[start:end], offAxisVal) + start
+        found = k < end and offAxis[k] == offAxisVal
+        if found and value != 0: # Update existing entry
+            self._data.data = modifyNumpyArrayValue(self._data.data, k, value)
+        elif found: # Remove entry if value is zero (maintain sparsity)
+            self._data.data = np.delete(self._data.data, k)
+            self._data.row = np.delete(self._data.row, k)
+            self._data.col = np.delete(self._data.col, k)
+            # Re-sort and re-index
+            self._sortInternal(self._sorted['axis'], setIndices=True, forceSort=True)
+        elif value != 0: # Insert new entry if value is not zero
+            data = np.append(self._data.data, self._data.data.dtype.type(0))
+            data = modifyNumpyArrayValue(data, len(data) - 1, value)
             self._data = scipy.sparse.coo_matrix(
-                (self._data.data, (self._data.row, self._data.col)),
-                 shape=(numPts,numFts)
-            )
+                (data, (np.append(self._data.row, x),
+                        np.append(self._data.col, y))),
+                shape=self._data.shape)
             # Re-sort and re-index
             self._sortInternal(self._sorted['axis'], setIndices=True, forceSort=True)
-            
+
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
         """
-- 
2.43.0


From 9363096834570e3207e8954c524523888ee0c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 09/92] fix: numpy scalars were treated as lists of values to
 match

---
 nimble/match/match.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 3175baf..36f6ce9 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -21,6 +21,8 @@ Variety of functions to determine if data matches given conditions
 
 import numpy as np
 
+from nimble._utility import isAllowedSingleElement
+
 def missing(value):
     """
     Determine if a value is missing.
@@ -1673,7 +1675,7 @@ def _convertMatchToFunction(match):
     if not callable(match):
         # case1: list-like
         if ((hasattr(match, '__iter__') or hasattr(match, '__getitem__'))
-                and not isinstance(match, str)):
+                and not isAllowedSingleElement(match)):
             matchList = match
             # if nans in the list, need to include separate check in function
             if not all(val == val for val in matchList):
-- 
2.43.0


From 997438c22542cbc5e1dd5618d760ff1df797fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 10/92] fix: axis.replace transposed raw data given for a
 single point or feature

---
 nimble/core/data/axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 85da317..d26996e 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -662,7 +662,8 @@ class Axis(ABC):
                 fnames.append(dataKwds.pop('featureNames'))
             dataObj = nimble.data(**dataKwds)
             ax, offAx = (1, 0) if self._isPoint else (0, 1)
-            if dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1:
+            if (dataObj.shape[ax] == 1 and dataObj.shape[offAx] > 1
+                    and self._base.shape[ax] != 1):
                 # transpose if 1D and not expected vector shape
                 dataObj.transpose(useLog=False)
             if pnames:
-- 
2.43.0


From 373b7ccd701b20bd50851296a19376346fa2df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 11/92] fix: replaceRectangle in Sparse failed or misplaced
 values when the region held no stored values

---
 nimble/core/data/sparse.py | 210 ++++---------------------------------
 1 file changed, 19 insertions(+), 191 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 81d3ca8..edf6778 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -389,166 +389,26 @@ class Sparse(Base):
 
     def _replaceRectangle_implementation(self, replaceWith, pointStart,
                                          featureStart, pointEnd, featureEnd):
-        # sort values or call helper as needed
-        constant = not isinstance(replaceWith, Base)
-        if constant:
-            if replaceWith == 0:
-                self._replaceRectangle_zeros_implementation(
-                    pointStart, featureStart, pointEnd, featureEnd)
-                return
-        else:
-            replaceWith._sortInternal('point')
-
-        # this has to be after the possible call to
-        # _replaceRectangle_zeros_implementation; unnecessary for that helper
-        self._sortInternal('point', setIndices=True)
-
-        # the current values and the new values must share a type
-        if constant:
-            newType = np.array(replaceWith).dtype
-        else:
-            newType = replaceWith._data.data.dtype
-        newType = np.result_type(self._data.data.dtype, newType)
-        self._data.data = self._data.data.astype(newType)
-
-        selfIdx = 0
-        valsIdx = 0
-        copyIndex = 0
-        toAddData = []
-        toAddRow = []
-        toAddCol = []
-        selfEnd = self._sorted['indices'][pointEnd + 1]
-        if constant:
-            valsEnd = ((pointEnd - pointStart + 1)
-                       * (featureEnd - featureStart + 1))
-        else:
-            valsEnd = len(replaceWith._data.data)
-
-        # Adjust selfIdx so that it begins at the values that might need to be
-        # replaced, or, if no such values exist, set selfIdx such that the main
-        # loop will ignore the contents of self.
-        if len(self._data.data) > 0:
-            selfIdx = self._sorted['indices'][pointStart]
-
-            pcheck = self._data.row[selfIdx]
-            fcheck = self._data.col[selfIdx]
-            # the condition in the while loop is a natural break, if it isn't
-            # satisfied then selfIdx will be exactly where we want it
-            while fcheck < featureStart or fcheck > featureEnd:
-                # this condition is an unatural break, when it is satisfied,
-                # that means no value of selfIdx will point into the desired
-                # values
-                if pcheck > pointEnd or selfIdx == len(self._data.data) - 1:
-                    selfIdx = selfEnd
-                    break
-
-                selfIdx += 1
-                pcheck = self._data.row[selfIdx]
-                fcheck = self._data.col[selfIdx]
-
-            copyIndex = selfIdx
-
-        # Walk full contents of both, modifying, shifing, or setting aside
-        # values as needed. We will only ever increment one of selfIdx or
-        # valsIdx at a time, meaning if there are matching entries, we will
-        # encounter them. Due to the sorted precondition, if the location in
-        # one object is less than the location in the other object, the lower
-        # one CANNOT have a match.
-        while selfIdx < selfEnd or valsIdx < valsEnd:
-            if selfIdx < selfEnd:
-                locationSP = self._data.row[selfIdx]
-                locationSF = self._data.col[selfIdx]
-            else:
-                # we want to use unreachable values as sentials, so we + 1
-                # since we're using inclusive endpoints
-                locationSP = pointEnd + 1
-                locationSF = featureEnd + 1
-
-            # adjust 'values' locations into the scale of the calling object
-            locationVP = pointStart
-            locationVF = featureStart
-            if constant:
-                vData = replaceWith
-                # uses truncation of int division
-                locationVP += valsIdx / (featureEnd - featureStart + 1)
-                locationVF += valsIdx % (featureEnd - featureStart + 1)
-            elif valsIdx >= valsEnd:
-                locationVP += pointEnd + 1
-                locationVF += featureEnd + 1
-            else:
-                vData = replaceWith._data.data[valsIdx]
-                locationVP += replaceWith._data.row[valsIdx]
-                locationVF += replaceWith._data.col[valsIdx]
-
-            pCmp = locationSP - locationVP
-            fCmp = locationSF - locationVF
-            trueCmp = pCmp if pCmp != 0 else fCmp
-
-            # Case: location at index into self is higher than location
-            # at index into values. No matching entry in self;
-            # copy if space, or record to be added at end.
-            if trueCmp > 0:
-                # can only copy into self if there is open space
-                if copyIndex < selfIdx:
-                    self._data.data[copyIndex] = vData
-                    self._data.row[copyIndex] = locationVP
-                    self._data.col[copyIndex] = locationVF
-                    copyIndex += 1
-                else:
-                    toAddData.append(vData)
-                    toAddRow.append(locationVP)
-                    toAddCol.append(locationVF)
-
-                #increment valsIdx
-                valsIdx += 1
-            # Case: location at index into other is higher than location at
-            # index into self. no matching entry in values - fill this entry
-            # in self with zero (by shifting past it)
-            elif trueCmp < 0:
-                # need to do cleanup if we're outside of the relevant bounds
-                if locationSF < featureStart or locationSF > featureEnd:
-                    self._data.data[copyIndex] = self._data.data[selfIdx]
-                    self._data.row[copyIndex] = self._data.row[selfIdx]
-                    self._data.col[copyIndex] = self._data.col[selfIdx]
-                    copyIndex += 1
-                selfIdx += 1
-            # Case: indices point to equal locations.
-            else:
-                self._data.data[copyIndex] = vData
-                self._data.row[copyIndex] = locationVP
-                self._data.col[copyIndex] = locationVF
-                copyIndex += 1
-
-                # increment both??? or just one?
-                selfIdx += 1
-                valsIdx += 1
-
-        # Now we have to walk through the rest of self, finishing the copying
-        # shift if necessary
-        if copyIndex != selfIdx:
-            while selfIdx < len(self._data.data):
-                self._data.data[copyIndex] = self._data.data[selfIdx]
-                self._data.row[copyIndex] = self._data.row[selfIdx]
-                self._data.col[copyIndex] = self._data.col[selfIdx]
-                selfIdx += 1
-                copyIndex += 1
+        if not isinstance(replaceWith, Base):
+            shape = (pointEnd - pointStart + 1, featureEnd - featureStart + 1)
+            newRow, newCol = np.indices(shape).reshape(2, -1)
+            newData = np.full(len(newRow), replaceWith)
+            if replaceWith == 0: # zeros are not stored
+                newData, newRow, newCol = newData[:0], newRow[:0], newCol[:0]
         else:
-            copyIndex = len(self._data.data)
-
-        newData = np.empty(copyIndex + len(toAddData),
-                           dtype=self._data.data.dtype)
-        newData[:copyIndex] = self._data.data[:copyIndex]
-        newData[copyIndex:] = toAddData
-        newRow = np.empty(copyIndex + len(toAddRow))
-        newRow[:copyIndex] = self._data.row[:copyIndex]
-        newRow[copyIndex:] = toAddRow
-        newCol = np.empty(copyIndex + len(toAddCol))
-        newCol[:copyIndex] = self._data.col[:copyIndex]
-        newCol[copyIndex:] = toAddCol
-        shape = (len(self.points), len(self.features))
-        self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
-                                             shape)
-
+            newData = replaceWith._data.data
+            newRow = replaceWith._data.row
+            newCol = replaceWith._data.col
+        row, col = self._data.row, self._data.col
+        keep = ((row < pointStart) | (row > pointEnd)
+                | (col < featureStart) | (col > featureEnd))
+        newType = np.result_type(self._data.data.dtype, newData.dtype)
+        data = np.concatenate((self._data.data[keep].astype(newType),
+                               newData.astype(newType)))
+        row = np.concatenate((row[keep], newRow + pointStart))
+        col = np.concatenate((col[keep], newCol + featureStart))
+        self._data = scipy.sparse.coo_matrix((data, (row, col)),
+                                             shape=self._data.shape)
         self._resetSorted()
 
     def _flatten_implementation(self, order):
@@ -568,38 +428,6 @@ class Sparse(Base):
         # array down to size???
         pass
 
-    def _replaceRectangle_zeros_implementation(self, pointStart, featureStart,
-                                               pointEnd, featureEnd):
-        # walk through col listing and partition all data: extract, and kept,
-        # reusing the sparse matrix underlying structure to save space
-        copyIndex = 0
-
-        for lookIndex, lookData in enumerate(self._data.data):
-            currP = self._data.row[lookIndex]
-            currF = self._data.col[lookIndex]
-            # if it is in range we want to obliterate the entry by just passing
-            # it by and copying over it later
-            if (currP >= pointStart
-                    and currP <= pointEnd
-                    and currF >= featureStart
-                    and currF <= featureEnd):
-                pass
-            else:
-                self._data.data[copyIndex] = lookData
-                self._data.row[copyIndex] = self._data.row[lookIndex]
-                self._data.col[copyIndex] = self._data.col[lookIndex]
-                copyIndex += 1
-
-        # reinstantiate self
-        # (cannot reshape coo matrices, so cannot do this in place)
-        newData = self._data.data[0:copyIndex]
-        newRow = self._data.row[0:copyIndex]
-        newCol = self._data.col[0:copyIndex]
-        shape = (len(self.points), len(self.features))
-        self._data = scipy.sparse.coo_matrix((newData, (newRow, newCol)),
-                                             shape)
-        self._resetSorted()
-
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
         self._sortInternal('feature')
-- 
2.43.0


From e9d73a810a83e925d70a16bbf1c8167212cd624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 12/92] fix: a number written into a boolean Matrix became a
 boolean

---
 nimble/core/data/_dataHelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 2277500..dde5558 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -1180,6 +1180,9 @@ def modifyNumpyArrayValue(arr, index, newVal):
         arr = arr.astype(np.object_)
     elif floatNewVal and arr.dtype not in (np.floating, np.object_):
         arr = arr.astype(np.float64)
+    elif (arr.dtype == np.bool_ and not nonNumericNewVal
+          and not isinstance(newVal, (bool, np.bool_))):
+        arr = arr.astype(np.array(newVal).dtype)
 
     arr[index] = newVal
 
-- 
2.43.0


From b9c6f95a51f30ec59fcc390aaf7c653380505efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 13/92] fix: arithmetic shared dimensions with the operand,
 modified operands, and failed for Sparse remainders, missing values and 1x1
 stretches

---
 nimble/core/data/base.py    | 53 +++++++++++++++++++++----------------
 nimble/core/data/sparse.py  | 46 +++++++++++++-------------------
 nimble/core/data/stretch.py | 30 +++++++++++----------
 3 files changed, 65 insertions(+), 64 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9e67934..05f801a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4923,21 +4923,16 @@ class Base(ABC):
             msg += "empty"
             raise ImproperObjectAction(msg)
 
-        try:
-            self._convertToNumericTypes()
-        except ImproperObjectAction:
-            self._numericValidation()
-        try:
-            other._convertToNumericTypes()
-        except ImproperObjectAction:
-            other._numericValidation(right=True)
+        # the conversions must not modify the operands
+        left = self._numericCopy()
+        right = other._numericCopy(right=True)
 
         if opName.startswith('__r'):
-            caller = other
-            callee = self
+            caller = right
+            callee = left
         else:
-            caller = self
-            callee = other
+            caller = left
+            callee = right
 
         if len(caller.features) != len(callee.points):
             msg = "The number of features in the left hand object must "
@@ -5240,6 +5235,21 @@ class Base(ABC):
             msg = msg.format('left')
             raise ImproperObjectAction(msg) from e
 
+    def _numericCopy(self, right=False, **conversionKwargs):
+        """
+        Copy this object and convert the copy to numeric types.
+        """
+        try:
+            ret = self.copy()
+        except ValueError: # scipy does not allow copies of object dtype
+            ret = self
+        try:
+            ret._convertToNumericTypes(**conversionKwargs)
+        except ImproperObjectAction:
+            ret._numericValidation(right)
+
+        return ret
+
     def _genericBinary_sizeValidation(self, opName, other):
         if self._dims != other._dims:
             msg = "The dimensions of the objects must be equal."
@@ -5410,15 +5420,8 @@ class Base(ABC):
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
 
-        if opName.startswith('__i'):
-            obj = self
-        else:
-            obj = self.copy()
-
-        try:
-            obj._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            obj._numericValidation()
+        # a copy even if in place, a failed operation must not modify self
+        obj = self._numericCopy(**conversionKwargs)
         if isinstance(other, Stretch):
             # __ipow__ does not work if return NotImplemented
             if opName == '__ipow__':
@@ -5449,8 +5452,9 @@ class Base(ABC):
             obj._diagnoseFailureAndRaiseException(opName, other, error)
             raise # backup; should be diagnosed and raised above
 
-        ret._dims = self._dims
+        ret._dims = self._dims.copy()
         if opName.startswith('__i'):
+            obj = self
             self._referenceFrom(ret, paths=(self._absPath, self._relPath))
             ret = self
         ret.points.setNames(retPNames, useLog=False)
@@ -5498,7 +5502,10 @@ class Base(ABC):
 
     def _genericLogicalBinary(self, opName, other):
         if isinstance(other, Stretch):
-            return getattr(other, opName)(self)
+            ret = getattr(other, opName)(self)
+            if ret.getTypeString() != self.getTypeString():
+                ret = ret.copy(self.getTypeString())
+            return ret
         if not isinstance(other, Base):
             msg = 'other must be an instance of a nimble Base object'
             raise InvalidArgumentType(msg)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index edf6778..04bff2d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -842,6 +842,12 @@ class Sparse(Base):
         Directs the operation to the best implementation available,
         preserving the sparse representation whenever possible.
         """
+        if (isinstance(other, Base)
+                and any(op in opName for op in ['mul', 'div', 'mod'])
+                and not self._allFinite(other)):
+            # scipy assumes zeros remain zeros, which is not true if paired
+            # with nan or infinity
+            return self._defaultBinaryOperations_implementation(opName, other)
         # scipy mul and pow operators are not elementwise
         if 'mul' in opName:
             return self._genericMul_implementation(opName, other)
@@ -876,11 +882,21 @@ class Sparse(Base):
                 return self._inplaceBinary_implementation(opName, other)
             if 'floordiv' in opName:
                 return self._genericFloordiv_implementation(opName, other)
-            if 'mod' in opName:
-                return self._genericMod_implementation(opName, other)
             return self._defaultBinaryOperations_implementation(opName, other)
 
 
+    def _allFinite(self, other):
+        """
+        Determine if neither object contains nan or infinity.
+        """
+        for obj in (self, other):
+            data = obj._data.data if isinstance(obj, Sparse) else obj
+            if isinstance(data, Base):
+                data = data.copy('numpyarray')
+            if not np.isfinite(data.astype(float)).all():
+                return False
+        return True
+
     def _scalarBinary_implementation(self, opName, other):
         oneSafe = ['mul', '__truediv__', '__itruediv__', '__pow__', '__ipow__']
         if any(name in opName for name in oneSafe) and other == 1:
@@ -948,6 +964,7 @@ class Sparse(Base):
         else:
             raw = scipy.sparse.coo_matrix(raw, shape=self._data.shape)
         target._data = raw
+        target._resetSorted()
         return target
 
     def _genericPow_implementation(self, opName, other):
@@ -990,31 +1007,6 @@ class Sparse(Base):
         ret._data.eliminate_zeros()
         return ret
 
-    def _genericMod_implementation(self, opName, other):
-        """
-        Uses np.mod on the nonzero values in the coo matrix.
-
-        Since 0 % any value is 0, the zero values can be ignored for
-        this operation.
-        """
-        sortedAxis = self._sorted['axis']
-        sort = sortedAxis if sortedAxis is not None else 'point'
-        self._sortInternal(sort)
-        selfData = self._getSparseData()
-        if not isinstance(other, Sparse):
-            other = other.copy('Sparse')
-        other._sortInternal(sort)
-        otherData = other._getSparseData()
-        if opName == '__rmod__':
-            ret = np.mod(otherData.data, selfData.data)
-        else:
-            ret = np.mod(selfData.data, otherData.data)
-        coo = scipy.sparse.coo_matrix((ret, (selfData.row, selfData.col)),
-                                      shape=self.shape)
-        coo.eliminate_zeros() # remove any zeros introduced into data
-
-        return Sparse(coo)
-
     def _scalarZeroPreservingBinary_implementation(self, opName, other):
         """
         Helper applying operation directly to data attribute.
diff --git a/nimble/core/data/stretch.py b/nimble/core/data/stretch.py
index 4436d40..b108e44 100644
--- a/nimble/core/data/stretch.py
+++ b/nimble/core/data/stretch.py
@@ -119,11 +119,11 @@ class Stretch(object):
             oDefault = oAxis._allDefaultNames()
             if sNames == oNames: # includes both names are None
                 return sNames
-            if sDefault and oStretch and oNum != setNum and oNames:
+            if sDefault and oDefault:
+                return None
+            if sDefault and oStretch and oNum != setNum:
                 oName = oNames[0]
                 return [oName + '_' + str(i + 1) for i in range(setNum)]
-            if sNames and sDefault and not oNames:
-                return sNames
             if sDefault:
                 return oNames
             if oDefault and (sNum > 1 or setNum == 1):
@@ -160,7 +160,8 @@ class Stretch(object):
         else:
             stretchPossible = True
             if self._numPts == 1 and self._numFts == 1:
-                matchAxis = 'point' if len(other.points) > 1 else 'feature'
+                # the axis that is not stretched
+                matchAxis = 'point' if len(other.features) > 1 else 'feature'
                 if not 1 in other.shape:
                     stretchPossible = False
             elif self._numPts == 1:
@@ -188,24 +189,25 @@ class Stretch(object):
         if 'pow' in opName:
             conversionKwargs['allowInt'] = False
             conversionKwargs['allowBool'] = False
-        try:
-            self._source._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            self._source._numericValidation()
+        # the conversions must not modify the operands
+        source = self._source._numericCopy(**conversionKwargs)
         if isinstance(other, Stretch):
             otherSource = other._source
         else:
             otherSource = other
-        try:
-            otherSource._convertToNumericTypes(**conversionKwargs)
-        except ImproperObjectAction:
-            otherSource._numericValidation(right=True)
+        otherSource = otherSource._numericCopy(right=True, **conversionKwargs)
 
         self._stretchArithmetic_validation(opName, other)
 
+        stretched = source.stretch
+        if isinstance(other, Stretch):
+            toUse = otherSource.stretch
+        else:
+            toUse = otherSource
         try:
             with np.errstate(divide='raise', invalid='raise'):
-                ret = self._stretchArithmetic_implementation(opName, other)
+                ret = stretched._stretchArithmetic_implementation(opName,
+                                                                  toUse)
         except (TypeError, ValueError, FloatingPointError) as error:
             self._source._diagnoseFailureAndRaiseException(opName, otherSource,
                                                            error)
@@ -263,7 +265,7 @@ class StretchSparse(Stretch):
                 lhs = self._source
             rhs = other.copy()
         # other is Stretch
-        elif self._numPts == 1:
+        elif self._numPts == 1 and other._numFts == 1:
             selfFts = len(self._source.features)
             otherPts = len(other._source.points)
             lhs = self._source.points.repeat(otherPts, True, useLog=False)
-- 
2.43.0


From c797e6f2837334a372955c85d43d93178980d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 14/92] fix: fillMatching with a boolean object used the wrong
 vectors for limits not in ascending order

---
 nimble/core/data/axis.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index d26996e..ab03bdf 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -775,14 +775,13 @@ class Axis(ABC):
             fillFunc = fillWith
 
         # if matchingElements is a boolean matrix we need to provide the
-        # corresponding boolean vector for the vector passed to _transform
-        try:
-            idxOrder = iter(limitTo)
-        except TypeError:
-            if limitTo is None:
-                idxOrder = iter(range(len(self)))
-            else: # limitTo is a single identifier
-                idxOrder = iter([self._getIndex(limitTo)])
+        # corresponding boolean vector for the vector passed to _transform,
+        # which visits the vectors in order regardless of the limitTo order
+        if limitTo is None:
+            idxOrder = iter(range(len(self)))
+        else:
+            idxOrder = iter(sorted(set(
+                constructIndicesList(self._base, self._axis, limitTo))))
 
         @functools.wraps(fillFunc)
         def fillFunction(vector):
-- 
2.43.0


From d540a0f7c875bc7a3992a5baf42b0d2d1330fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 15/92] fix: merge modified the object before failing, and
 partially named objects were matched by their unnamed members

---
 nimble/core/data/axis.py | 11 +++++------
 nimble/core/data/base.py | 25 ++++++++++++++++---------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index ab03bdf..850572c 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -1525,13 +1525,12 @@ class Axis(ABC):
     def _getMatchingNames(self, other):
         matches = []
         otherAxis = other._getAxis(self._axis)
-        if not self._namesCreated() and otherAxis._namesCreated():
+        if not (self._namesCreated() and otherAxis._namesCreated()):
             return matches
-        allNames = self._getNames() + otherAxis.getNames()
-        if len(set(allNames)) != len(allNames):
-            for name in self.names:
-                if name in otherAxis.names:
-                    matches.append(name)
+        # same order as the positions in this object
+        for name in self._getNames():
+            if name is not None and name in otherAxis.names:
+                matches.append(name)
         return matches
 
     def _sigFunc(self, funcName):
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 05f801a..a883505 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4587,17 +4587,24 @@ class Base(ABC):
             msg += "'intersection'"
             raise InvalidArgumentValue(msg)
 
+        if onFeature is None or isinstance(onFeature, str):
+            sortBy = onFeature
+        else: # the index can be different in the merged object
+            sortBy = self.features.getName(onFeature)
+
+        # this object must not be modified if the merge fails
+        merged = self.copy()
         if point == 'strict' or feature == 'strict':
-            self._genericStrictMerge_implementation(other, point, feature,
-                                                    onFeature, force)
+            merged._genericStrictMerge_implementation(other, point, feature,
+                                                      onFeature, force)
         else:
-            self._genericMergeFrontend(other, point, feature, onFeature)
-        
-        if point == 'union':
-            if onFeature:
-                self.points.sort(by=onFeature, useLog=False)
-        
-            
+            merged._genericMergeFrontend(other, point, feature, onFeature)
+
+        if point == 'union' and sortBy is not None:
+            merged.points.sort(by=sortBy, useLog=False)
+
+        self._referenceFrom(merged)
+
     def _genericStrictMerge_implementation(self, other, point, feature,
                                            onFeature, force):
         """
-- 
2.43.0


From ff91c533c0a252a0d54e8b5acf4f98a00ed9b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 16/92] fix: merge on a feature for List and Matrix objects
 dropped or misplaced left points

---
 nimble/core/data/list.py   | 22 +++++++++++-----------
 nimble/core/data/matrix.py | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 96fde34..3b778b5 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -378,7 +378,9 @@ class List(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left is only limited to the matching features below when
+                # using the intersection
+                onIdxL = onIdxLoc if feature == "intersection" else onFeatureIdx
                 onIdxR = onIdxLoc
                 right = [[row[i] for i in matchingFtIdx[1]]
                          for row in other._data]
@@ -487,17 +489,15 @@ class List(Base):
                         msg = "The objects contain different values for the "
                         msg += "same feature"
                         raise InvalidArgumentValue(msg)
-                    if sum(nansL) > 0:
-                        # fill any nan values in left with the corresponding
-                        # right value
-                        for i, value in enumerate(ptL):
-
-                            if value != value and i in matchingFtIdx[0]:
-                                lIdx = matchingFtIdx[0].index(i)
-                                ptL[i] = ptR[matchingFtIdx[1][lIdx]]
-                    ptR = [ptR[i] for i in range(len(ptR))
+                    pt = list(ptL)
+                    # fill any nan values in left with the corresponding
+                    # right value
+                    for i, j, nan in zip(matchingFtIdx[0], matchingFtIdx[1],
+                                         nansL):
+                        if nan:
+                            pt[i] = ptR[j]
+                    pt += [ptR[i] for i in range(len(ptR))
                            if i not in matchingFtIdx[1]]
-                    pt = ptL + ptR
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index e1536dd..b507d7b 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -254,7 +254,9 @@ class Matrix(Base):
             if feature in ["intersection", "left"]:
                 onFeatureIdx = self.features.getIndex(onFeature)
                 onIdxLoc = matchingFtIdx[0].index(onFeatureIdx)
-                onIdxL = onIdxLoc
+                # left is only limited to the matching features below when
+                # using the intersection
+                onIdxL = onIdxLoc if feature == "intersection" else onFeatureIdx
                 onIdxR = onIdxLoc
                 right = otherArr[:, matchingFtIdx[1]]
                 # matching indices in right were sorted when slicing above
@@ -349,15 +351,15 @@ class Matrix(Base):
                         msg = "The objects contain different values for the "
                         msg += "same feature"
                         raise InvalidArgumentValue(msg)
-                    if nansL.any():
-                        # fill any nan values in left with the corresponding
-                        # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                    pt = ptL.copy()
+                    # fill any nan values in left with the corresponding
+                    # right value
+                    for i, j, nan in zip(matchingFtIdx[0], matchingFtIdx[1],
+                                         nansL):
+                        if nan:
+                            pt[i] = ptR[j]
                     ptR = np.delete(ptR, matchingFtIdx[1])
-                    pt = np.concatenate((ptL, ptR)).flatten()
+                    pt = np.concatenate((pt, ptR)).flatten()
                     merged.append(pt)
                 matched.append(target)
             elif point in ['union', 'left']:
-- 
2.43.0


From 713558de187db2b10b74ebfd2e3ce2712c680cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 17/92] fix: merge of Sparse objects with views, mixed name
 types and unmatched points

---
 nimble/core/data/sparse.py | 52 +++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 04bff2d..704966c 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -430,6 +430,9 @@ class Sparse(Base):
 
     def _merge_implementation(self, other, point, feature, onFeature,
                               matchingFtIdx):
+        if isinstance(other, BaseView):
+            # a view does not store the data of its limited range
+            other = other.copy()
         self._sortInternal('feature')
         other._sortInternal('feature')
         tempFtsL = len(self.features)
@@ -457,7 +460,8 @@ class Sparse(Base):
                 # differentiate default names between objects
                 leftNames = [i if n is None else n for i, n
                              in enumerate(self.points.getNames())]
-                leftData = np.append([leftNames], leftData)
+                leftNames = np.array(leftNames, dtype=np.object_)
+                leftData = np.append(leftNames, leftData)
             else:
                 leftNames = list(range(len(self.points)))
                 leftData = np.append(leftNames, leftData)
@@ -472,7 +476,8 @@ class Sparse(Base):
                 # differentiate default names between objects
                 rightNames = [i + maxL if n is None else n for i, n in
                               enumerate(other.points.getNames())]
-                rightData = np.append([rightNames], rightData)
+                rightNames = np.array(rightNames, dtype=np.object_)
+                rightData = np.append(rightNames, rightData)
             else:
                 rtRange = range(self.shape[0], self.shape[0] + other.shape[0])
                 rightNames = list(rtRange)
@@ -493,8 +498,20 @@ class Sparse(Base):
         nextPt = 0
         numPts = 0
 
-        for ptIdxL, target in enumerate(leftData[leftCol == onIdxL]):
-            rowIdxR = np.where(rightData[rightCol == onIdxR] == target)[0]
+        def denseColumn(data, row, col, idx, length):
+            # the zeros are not stored but can also be matched
+            dense = np.zeros((length,), dtype=np.object_)
+            inCol = col == idx
+            dense[row[inCol]] = data[inCol]
+            return dense
+
+        targetsL = denseColumn(leftData, leftRow, leftCol, onIdxL,
+                               len(self.points))
+        targetsR = denseColumn(rightData, rightRow, rightCol, onIdxR,
+                               len(other.points))
+
+        for ptIdxL, target in enumerate(targetsL):
+            rowIdxR = np.where(targetsR == target)[0]
             if len(rowIdxR) > 0:
                 for ptIdxR in rowIdxR:
                     ptL = np.zeros((tempFtsL,), dtype=np.object_)
@@ -511,13 +528,12 @@ class Sparse(Base):
                         msg = "The objects contain different values for the "
                         msg += "same feature"
                         raise InvalidArgumentValue(msg)
-                    if len(nansL) > 0:
-                        # fill any nan values in left with the corresponding
-                        # right value
-                        for i, value in enumerate(ptL[matchingFtIdx[0]]):
-                            if value != value:
-                                fill = ptR[matchingFtIdx[1]][i]
-                                ptL[matchingFtIdx[0]][i] = fill
+                    # fill any nan values in left with the corresponding
+                    # right value
+                    for i, j, nan in zip(matchingFtIdx[0], matchingFtIdx[1],
+                                         nansL):
+                        if nan:
+                            ptL[i] = ptR[j]
                     ptR = ptR[[i for i in range(len(ptR))
                                if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
@@ -555,7 +571,7 @@ class Sparse(Base):
                 numPts += 1
 
         if point == 'union':
-            for ptIdxR, target in enumerate(rightData[rightCol == onIdxR]):
+            for ptIdxR, target in enumerate(targetsR):
                 if target not in matched:
                     nanList = [np.nan] * tempFtsL
                     ptL = np.array(nanList, dtype=np.object_)
@@ -564,10 +580,9 @@ class Sparse(Base):
                     ptR[rightCol[inRowR]] = rightData[inRowR]
                     fill = ptR[matchingFtIdx[1]]
                     ptL[matchingFtIdx[0]] = fill
-                    # only unmatched points from right
-                    notMatchedR = np.in1d(rightCol, matchingFtIdx[1],
-                                          invert=True)
-                    ptR = rightData[(rightRow == ptIdxR) & (notMatchedR)]
+                    # only unmatched features from right
+                    ptR = ptR[[i for i in range(len(ptR))
+                               if i not in matchingFtIdx[1]]]
                     pt = np.append(ptL, ptR)
                     if feature == "intersection":
                         pt = pt[matchingFtIdx[0]]
@@ -589,10 +604,7 @@ class Sparse(Base):
             numFts = len(matchingFtIdx[0]) - 1
         elif feature == "left":
             numFts = len(self.features)
-        if len(mergedData) == 0:
-            mergedData = []
-
-        mergedData = mergedData.astype(np.float64)
+        mergedData = np.array(mergedData, dtype=np.float64).flatten()
         self._dims = [numPts, numFts]
         self._data = scipy.sparse.coo_matrix(
             (mergedData, (mergedRow, mergedCol)), shape=(numPts, numFts))
-- 
2.43.0


From 772e52ea3884c0c0ef024c81af81fb4dda38597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 18/92] fix: merge of DataFrame objects matched by label
 instead of by position

---
 nimble/core/data/dataframe.py | 108 +++++++++++++++-------------------
 1 file changed, 47 insertions(+), 61 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 85bd880..4124506 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -334,75 +334,61 @@ class DataFrame(Base):
             point = 'outer'
         elif point == 'intersection':
             point = 'inner'
-        if self.features._namesCreated():
-            self._data.columns = self.features.getNames()
-        tmpDfR = other._data.copy()
-        if other.features._namesCreated():
-            tmpDfR.columns = other.features.getNames()
-
-        if feature == 'intersection':
-            self._data = self._data.iloc[:, matchingFtIdx[0]]
-            tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[0] = list(range(self._data.shape[1]))
-            matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
-        elif feature == "left":
-            tmpDfR = tmpDfR.iloc[:, matchingFtIdx[1]]
-            matchingFtIdx[1] = list(range(tmpDfR.shape[1]))
-
-        numColsL = len(self._data.columns)
-        if onFeature is None:
-            if (self.points._namesCreated()
-                    and other.points._namesCreated()):
-                # differentiate default names between objects using integers
-                self._data.index = [i if n is None else n for i, n
-                                    in enumerate(self.points.getNames())]
-                maxL = len(self.points)
-                tmpDfR.index = [i + maxL if n is None else n for i, n
-                                in enumerate(other.points.getNames())]
-            else:
-                # left guaranteed equiv to pd.RangeIndex(self._data.shape[0])
-                idxRange = range(self.shape[0], self.shape[0] + other.shape[0])
-                tmpDfR.index = list(idxRange)
-
-            self._data = self._data.merge(tmpDfR, how=point, left_index=True,
-                                          right_index=True)
+        left = self._data
+        right = other._data
+        if onFeature is not None:
+            keysL = left.iloc[:, self.features.getIndex(onFeature)]
+            keysR = right.iloc[:, other.features.getIndex(onFeature)]
         else:
-            onIdxL = self._data.columns.get_loc(onFeature)
-            onIdxR = tmpDfR.columns.get_loc(onFeature) + numColsL
-            self._data = self._data.merge(tmpDfR, how=point, on=onFeature)
+            # differentiate default names between objects using integers
+            keysL = [i if n is None else n for i, n
+                     in enumerate(self.points.getNames())]
+            maxL = len(self.points)
+            keysR = [i + maxL if n is None else n for i, n
+                     in enumerate(other.points.getNames())]
 
-        # return labels to default after we've executed the merge
-        self._data.index = pd.RangeIndex(self._data.shape[0])
-        self._data.columns = pd.RangeIndex(self._data.shape[1])
-
-        toDrop = []
-        for left, right in zip(matchingFtIdx[0], matchingFtIdx[1]):
-            if onFeature is not None and left == onIdxL:
-                # onFeature column has already been merged
-                continue
-            right += numColsL
-            if onFeature is not None and right > onIdxR:
-                # one less to account for merged onFeature
-                right -= 1
-
-            matches = self._data.iloc[:, left] == self._data.iloc[:, right]
-            nansL = np.array([x != x for x in self._data.iloc[:, left]])
-            nansR = np.array([x != x for x in self._data.iloc[:, right]])
-            acceptableValues = matches | nansL | nansR
-            if not all(acceptableValues):
+        if feature == 'intersection':
+            left = left.iloc[:, matchingFtIdx[0]]
+            matchingFtIdx[0] = list(range(left.shape[1]))
+        if feature in ['intersection', 'left']:
+            right = right.iloc[:, matchingFtIdx[1]]
+            matchingFtIdx[1] = list(range(right.shape[1]))
+
+        # pair the positions of the points, in the order of the left object
+        # followed by points that are only in the right object
+        pairs = pd.DataFrame({'key': list(keysL), 'left': range(len(left))})
+        pairsR = pd.DataFrame({'key': list(keysR), 'right': range(len(right))})
+        if pairs['key'].dtype != pairsR['key'].dtype:
+            pairs['key'] = pairs['key'].astype(object)
+            pairsR['key'] = pairsR['key'].astype(object)
+        pairs = pairs.merge(pairsR, how=point, on='key')
+        pairs = pairs.sort_values(['left', 'right'])
+
+        numColsL = left.shape[1]
+        left = left.reset_index(drop=True).reindex(pairs['left'])
+        right = right.reset_index(drop=True).reindex(pairs['right'])
+        for data in (left, right):
+            data.index = pd.RangeIndex(len(pairs))
+        left.columns = pd.RangeIndex(numColsL)
+        right.columns = pd.RangeIndex(numColsL, numColsL + right.shape[1])
+
+        for i, j in zip(matchingFtIdx[0], matchingFtIdx[1]):
+            valuesL = left[i]
+            valuesR = right[numColsL + j]
+            nansL = valuesL.isna()
+            if not all((valuesL == valuesR) | nansL | valuesR.isna()):
                 msg = "The objects contain different values for the same "
                 msg += "feature"
                 raise InvalidArgumentValue(msg)
             if nansL.any():
-                leftNansLocInRight = self._data.iloc[:, right][nansL]
-                self._data.iloc[:, left][nansL] = leftNansLocInRight
-            toDrop.append(right)
+                filled = valuesL.astype(object).where(~nansL, valuesR)
+                left[i] = filled.infer_objects()
 
-        if toDrop:
-            self._data.drop(toDrop, axis=1, inplace=True)
-            self._data.columns = pd.RangeIndex(self._data.shape[1])
+        toDrop = [numColsL + j for j in matchingFtIdx[1]]
+        self._data = pd.concat((left, right.drop(toDrop, axis=1)), axis=1)
+        self._data.columns = pd.RangeIndex(self._data.shape[1])
 
-        numFeatures = (numColsL + len(tmpDfR.columns) - len(matchingFtIdx[1]))
+        numFeatures = self._data.shape[1]
         numPoints = len(self._data.index)
 
         self._dims = [numPoints, numFeatures]
-- 
2.43.0


From 45079d4334720fd2b4cac796b3bbb80a381f8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 19/92] fix: merge of an object with non numeric Sparse data
 failed on copying before validation

---
 nimble/core/data/base.py   | 82 ++++++++++++++++++++++----------------
 nimble/core/data/sparse.py |  6 ++-
 2 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index a883505..9943a4b 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4593,12 +4593,12 @@ class Base(ABC):
             sortBy = self.features.getName(onFeature)
 
         # this object must not be modified if the merge fails
-        merged = self.copy()
         if point == 'strict' or feature == 'strict':
-            merged._genericStrictMerge_implementation(other, point, feature,
-                                                      onFeature, force)
+            merged = self._genericStrictMerge_implementation(
+                other, point, feature, onFeature, force)
         else:
-            merged._genericMergeFrontend(other, point, feature, onFeature)
+            merged = self._genericMergeFrontend(other, point, feature,
+                                                onFeature)
 
         if point == 'union' and sortBy is not None:
             merged.points.sort(by=sortBy, useLog=False)
@@ -4648,8 +4648,10 @@ class Base(ABC):
                 msg = f"could not locate feature '{onFeature}' in both objects"
                 raise InvalidArgumentValue(msg) from e
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            return self._genericMergeFrontend(tmpOther, point, feature,
+                                              onFeature)
         else:
+            left = self
             lNames = lAxis._getNamesNoGeneration()
             rNames = rAxis._getNamesNoGeneration()
             lAllNames = not lAxis._anyDefaultNames()
@@ -4667,7 +4669,8 @@ class Base(ABC):
                 rAxis.setNames(lNames, useLog=False)
                 endNames = lNames
             elif force and lNames is None and rAllNames:
-                lAxis.setNames(rNames, useLog=False)
+                left = self.copy()
+                left._getAxis(axis).setNames(rNames, useLog=False)
                 endNames = rNames
             elif force: # default names present
                 endNames = mergeNames(lAxis.getNames(), rAxis.getNames())
@@ -4677,7 +4680,8 @@ class Base(ABC):
                 try:
                     strictNames = ['_STRICT' + str(i) if n is None else n
                                    for i, n in enumerate(endNames)]
-                    lAxis.setNames(strictNames, useLog=False)
+                    left = self.copy()
+                    left._getAxis(axis).setNames(strictNames, useLog=False)
                     rAxis.setNames(strictNames, useLog=False)
                 except InvalidArgumentValue as e:
                     msg = f"When {axis}='strict' and default {axis} names "
@@ -4691,15 +4695,20 @@ class Base(ABC):
                 msg += f'that each {axis} is equal between the two objects'
                 raise InvalidArgumentValue(msg)
 
-            self._genericMergeFrontend(tmpOther, point, feature, onFeature)
+            merged = left._genericMergeFrontend(tmpOther, point, feature,
+                                                onFeature)
 
             # only reset names if we did not generate them
             if lNames is None and rNames is None:
-                lAxis.setNames(None, useLog=False)
-            else:
-                lAxis.setNames(endNames, useLog=False)
+                endNames = None
+            merged._getAxis(axis).setNames(endNames, useLog=False)
+
+            return merged
 
     def _genericMergeFrontend(self, other, point, feature, onFeature):
+        """
+        Validate the merge and return a new object with the merged data.
+        """
         # validation
         bothPtNamesCreated = (self.points._namesCreated()
                               and other.points._namesCreated())
@@ -4742,69 +4751,72 @@ class Base(ABC):
             matchingFtIdx[0].append(idxL)
             matchingFtIdx[1].append(idxR)
 
-        if self.getTypeString() != other.getTypeString():
-            other = other.copy(to=self.getTypeString())
-        self._merge_implementation(other, point, feature, onFeature,
+        merged = self.copy()
+        if merged.getTypeString() != other.getTypeString():
+            other = other.copy(to=merged.getTypeString())
+        merged._merge_implementation(other, point, feature, onFeature,
                                    matchingFtIdx)
 
-        lFtNames = self.features._namesCreated()
+        lFtNames = merged.features._namesCreated()
         rFtNames = other.features._namesCreated()
         if feature == "intersection":
             if lFtNames:
-                ftNames = [n for n in self.features.getNames()
+                ftNames = [n for n in merged.features.getNames()
                            if n in matchingFts]
-                self.features.setNames(ftNames, useLog=False)
+                merged.features.setNames(ftNames, useLog=False)
         elif feature == "union":
             if lFtNames and rFtNames:
-                ftNamesL = self.features.getNames()
+                ftNamesL = merged.features.getNames()
                 ftNamesR = [name for name in other.features.getNames()
                             if name not in matchingFts]
                 ftNames = ftNamesL + ftNamesR
-                self.features.setNames(ftNames, useLog=False)
+                merged.features.setNames(ftNames, useLog=False)
             elif lFtNames:
-                ftNamesL = self.features.getNames()
+                ftNamesL = merged.features.getNames()
                 ftNamesR = [None] * len(other.features)
                 ftNames = ftNamesL + ftNamesR
-                self.features.setNames(ftNames, useLog=False)
+                merged.features.setNames(ftNames, useLog=False)
             elif rFtNames:
-                ftNamesL = [None] * len(self.features)
+                ftNamesL = [None] * len(merged.features)
                 ftNamesR = other.features.getNames()
                 ftNames = ftNamesL + ftNamesR
-                self.features.setNames(ftNames, useLog=False)
+                merged.features.setNames(ftNames, useLog=False)
         # no name setting needed for left
 
-        lPtNames = self.points._namesCreated()
+        lPtNames = merged.points._namesCreated()
         rPtNames = other.points._namesCreated()
         if onFeature is None and point == 'left':
             if lPtNames:
-                self.points.setNames(self.points.getNames(), useLog=False)
+                merged.points.setNames(merged.points.getNames(), useLog=False)
         elif onFeature is None and point == 'intersection':
             # default names cannot be included in intersection
-            ptNames = [name for name in self.points.getNames()
+            ptNames = [name for name in merged.points.getNames()
                        if name in other.points.getNames()
                        and name is not None]
-            self.points.setNames(ptNames, useLog=False)
+            merged.points.setNames(ptNames, useLog=False)
         elif onFeature is None:
             # union cases
             if lPtNames and rPtNames:
-                ptNamesL = self.points.getNames()
+                ptNamesL = merged.points.getNames()
                 ptNamesR = other.points.getNames()
                 ptNames = ptNamesL + [name for name in ptNamesR
                                       if name is None or name not in ptNamesL]
-                self.points.setNames(ptNames, useLog=False)
+                merged.points.setNames(ptNames, useLog=False)
             elif lPtNames:
-                ptNamesL = self.points.getNames()
+                ptNamesL = merged.points.getNames()
                 ptNamesR = [None] * len(other.points)
                 ptNames = ptNamesL + ptNamesR
-                self.points.setNames(ptNames, useLog=False)
+                merged.points.setNames(ptNames, useLog=False)
             elif rPtNames:
-                ptNamesL = [None] * len(self.points)
+                ptNamesL = [None] * len(merged.points)
                 ptNamesR = other.points.getNames()
                 ptNames = ptNamesL + ptNamesR
-                self.points.setNames(ptNames, useLog=False)
+                merged.points.setNames(ptNames, useLog=False)
         else:
-            self.points.namesInverse = None
-            self.points.names = None
+            merged.points.namesInverse = None
+            merged.points.names = None
+
+        return merged
 
     #############################
     #  Linear Algebra functions #
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 704966c..45f8865 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -20,6 +20,7 @@ Class extending Base, defining an object to hold and manipulate a scipy
 coo_matrix.
 """
 
+import copy
 import warnings
 import numbers
 
@@ -341,7 +342,10 @@ class Sparse(Base):
             ptNames = self.points._getNamesNoGeneration()
             ftNames = self.features._getNamesNoGeneration()
             if to == 'Sparse':
-                data = self._data.copy()
+                try:
+                    data = self._data.copy()
+                except ValueError: # object dtype, scipy will not copy
+                    data = copy.deepcopy(self._data)
             else:
                 data = sparseMatrixToArray(self._data)
             # reuseData=True since we already made copies here
-- 
2.43.0


From 8b26f6d344818dd5d27ade85fb09b69907b76344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 20/92] fix: feature encodings and parsing modified the object
 before failing and split missing values

---
 nimble/core/data/_dataHelpers.py | 27 +++++++++++++++++++++++++++
 nimble/core/data/base.py         | 20 +++++++++++++-------
 nimble/core/data/features.py     | 11 +++++++----
 3 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index dde5558..c056d29 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -333,6 +333,33 @@ def constructIndicesList(obj, axis, values, argName=None):
 
     return indicesList
 
+class NaNKeyDict(dict):
+    """
+    Dictionary which finds the value of its nan key for any nan object.
+    """
+    def __missing__(self, key):
+        if key != key: # nan
+            for storedKey, value in self.items():
+                if storedKey != storedKey:
+                    return value
+        raise KeyError(key)
+
+def validateUniqueNames(names):
+    """
+    Validate the names that an axis will have after an operation. Any name
+    that is not None must be a string and can only be used once.
+    """
+    used = set()
+    for name in names:
+        if name is None:
+            continue
+        if not isinstance(name, str):
+            msg = 'A name must be a string, received ' + str(name)
+            raise InvalidArgumentType(msg)
+        if name in used:
+            raise InvalidArgumentValue("Cannot input duplicate names: " + name)
+        used.add(name)
+
 def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
                                    collapseData, currNumPoints, currFtNames,
                                    numRetPoints, numRetFeatures):
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9943a4b..660e436 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -57,6 +57,7 @@ from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import applyElementFunction
 from ._dataHelpers import ElementIterator1D
+from ._dataHelpers import validateUniqueNames, NaNKeyDict
 from ._dataHelpers import limitedTo2D
 from ._dataHelpers import arrangeFinalTable
 from ._dataHelpers import inconsistentNames, equalNames
@@ -572,10 +573,10 @@ class Base(ABC):
 
         index = self.features.getIndex(featureToReplace)
 
-        replace = self.features.extract([index], useLog=False)
+        replace = self.features.copy([index], useLog=False)
 
         uniqueVals = replace.countUniqueElements().keys()
-        uniqueIdx = {key: i for i, key in enumerate(uniqueVals)}
+        uniqueIdx = NaNKeyDict((key, i) for i, key in enumerate(uniqueVals))
 
         binaryObj = replace._replaceFeatureWithBinaryFeatures_implementation(
             uniqueIdx)
@@ -584,14 +585,17 @@ class Base(ABC):
                                   useLog=False)
         ftNames = []
 
-        if replace.features._namesCreated():
-            prefix = replace.features.getName(0) + "="
-        else:
-            prefix = str(index) + '='
+        prefix = replace.features.getName(0)
+        if prefix is None:
+            prefix = str(index)
         for val in uniqueVals:
-            ftNames.append(prefix + str(val))
+            ftNames.append(prefix + '=' + str(val))
+        # validate new feature names before modifying the object
+        currNames = self.features.getNames()
+        validateUniqueNames(currNames[:index] + ftNames + currNames[index+1:])
         binaryObj.features.setNames(ftNames, useLog=False)
 
+        self.features.delete(index, useLog=False)
         # must use append if the object is now feature empty
         if len(self.features) == 0:
             self.features.append(binaryObj, useLog=False)
@@ -656,6 +660,8 @@ class Base(ABC):
             integerValue = 0
             mapped = []
             for val in ft:
+                if val != val:
+                    val = np.nan # every nan is the same value
                 if val in mapping:
                     mapped.append(mapping[val])
                 elif val == 0:
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index 0fbe027..b679766 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -37,7 +37,7 @@ from nimble.core.logger import handleLogging
 from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateUniqueNames
 
 class Features(ABC):
     """
@@ -2186,12 +2186,15 @@ class Features(ABC):
         featureIndex = self.getIndex(feature)
         numRetFeatures = len(self) - 1 + numResultingFts
 
-        self._splitByParsing_implementation(featureIndex, splitList,
-                                            numRetFeatures, numResultingFts)
-
+        # validate new feature names before modifying the object
         fNames = self.getNames()[:featureIndex]
         fNames.extend(resultingNames)
         fNames.extend(self.getNames()[featureIndex + 1:])
+        validateUniqueNames(fNames)
+
+        self._splitByParsing_implementation(featureIndex, splitList,
+                                            numRetFeatures, numResultingFts)
+
         self._base._dims[1] = numRetFeatures
         self.setNames(fNames, useLog=False)
 
-- 
2.43.0


From 165fa737505e54cad00081b9edca301da1ebed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 21/92] fix: flatten, unflatten and splitting or combining
 features lost names, truncated or stringified values and were not atomic

---
 nimble/core/data/_dataHelpers.py  | 13 +++--
 nimble/core/data/base.py          | 42 +++++-----------
 nimble/core/data/dataframe.py     |  2 +-
 nimble/core/data/dataframeAxis.py | 26 +++++-----
 nimble/core/data/listAxis.py      | 10 ++--
 nimble/core/data/matrixAxis.py    |  5 +-
 nimble/core/data/points.py        | 61 ++++++++++++-----------
 nimble/core/data/sparse.py        |  3 ++
 nimble/core/data/sparseAxis.py    | 80 +++++++++++++++++--------------
 9 files changed, 120 insertions(+), 122 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index c056d29..13d11f4 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -372,15 +372,14 @@ def fillArrayWithCollapsedFeatures(featuresToCollapse, retainData,
     fill[:, :-2] = np.repeat(retainData, len(featuresToCollapse), axis=0)
 
     # stack feature names repeatedly to create new feature
-    namesAsFeature = np.tile(currFtNames, (1, currNumPoints))
-    fill[:, -2] = namesAsFeature
+    fill[:, -2] = list(currFtNames) * currNumPoints
     # flatten values by row then reshape into new feature
     valuesAsFeature = collapseData.flatten()
     fill[:, -1] = valuesAsFeature
 
     return fill
 
-def fillArrayWithExpandedFeatures(uniqueDict, namesIdx, uniqueNames,
+def fillArrayWithExpandedFeatures(uniqueDict, insertIdx, uniqueNames,
                                   numRetFeatures, numExpanded):
     """
     Helper function for modifying the underlying data for
@@ -389,18 +388,18 @@ def fillArrayWithExpandedFeatures(uniqueDict, namesIdx, uniqueNames,
     """
     fill = np.empty(shape=(len(uniqueDict), numRetFeatures), dtype=np.object_)
 
-    endSlice = slice(namesIdx + (len(uniqueNames) * numExpanded), None)
+    endSlice = slice(insertIdx + (len(uniqueNames) * numExpanded), None)
     for i, point in enumerate(uniqueDict):
-        fill[i, :namesIdx] = point[:namesIdx]
+        fill[i, :insertIdx] = point[:insertIdx]
         for j, name in enumerate(uniqueNames):
-            fillStart = namesIdx + (j * numExpanded)
+            fillStart = insertIdx + (j * numExpanded)
             fillStop = fillStart + numExpanded
             fillSlice = slice(fillStart, fillStop)
             if name in uniqueDict[point]:
                 fill[i, fillSlice] = uniqueDict[point][name]
             else:
                 fill[i, fillSlice] = [np.nan] * numExpanded
-        fill[i, endSlice] = point[namesIdx:]
+        fill[i, endSlice] = point[insertIdx:]
 
     return fill
 
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 660e436..98a34d6 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -4141,7 +4141,8 @@ class Base(ABC):
             raise ImproperObjectAction(msg)
 
         fNames = None
-        if self.points._namesCreated() or self.features._namesCreated():
+        if not (self.points._allDefaultNames()
+                and self.features._allDefaultNames()):
             fNames = self._flattenNames(order)
         self._dims = list(self.shape) # make 2D before flattening
         self._flatten_implementation(order)
@@ -4151,10 +4152,10 @@ class Base(ABC):
         self.points.setNames(['Flattened'], useLog=False)
 
 
-    def _unflattenNames(self):
+    def _unflattenNames(self, shape2D):
         """
         Helper calculating the new axis names after an unflattening
-        operation.
+        operation. The names must match the format established in flatten.
         """
         possibleNames = None
         if len(self.points) > 1 and self.points._namesCreated():
@@ -4173,29 +4174,14 @@ class Base(ABC):
             else:
                 return (None, None)
 
-        pNames = []
-        fNames = []
-        allPtDefault = True
-        allFtDefault = True
-        for pName, fName in splitNames:
-            if pName not in pNames:
-                if pName.startswith('_PT#'):
-                    pNames.append(None)
-                else:
-                    pNames.append(pName)
-                    if allPtDefault:
-                        allPtDefault = False
-            if fName not in fNames:
-                if fName.startswith('_FT#'):
-                    fNames.append(None)
-                else:
-                    fNames.append(fName)
-                    if allFtDefault:
-                        allFtDefault = False
-
-        if allPtDefault:
+        # unique names in order of appearance
+        pNames = list(dict.fromkeys(name[0] for name in splitNames))
+        fNames = list(dict.fromkeys(name[1] for name in splitNames))
+        pNames = [None if n.startswith('_PT#') else n for n in pNames]
+        fNames = [None if n.startswith('_FT#') else n for n in fNames]
+        if len(pNames) != shape2D[0] or not any(n is not None for n in pNames):
             pNames = None
-        if allFtDefault:
+        if len(fNames) != shape2D[1] or not any(n is not None for n in fNames):
             fNames = None
 
         return pNames, fNames
@@ -4353,11 +4339,7 @@ class Base(ABC):
         self._unflatten_implementation(shape2D, order)
 
         if len(dataDimensions) == 2:
-            pNames, fNames = self._unflattenNames()
-            if pNames and len(pNames) != shape2D[0]:
-                pNames = None
-            if fNames and len(fNames) != shape2D[1]:
-                fNames = None
+            pNames, fNames = self._unflattenNames(shape2D)
         else:
             pNames, fNames = (None, None)
 
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 4124506..b599787 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -320,7 +320,7 @@ class DataFrame(Base):
             newDtypes = tuple(max(dtypes[i::reshape[1]]) for i in jumps)
         else:
             jumps = range(0, np.prod(reshape), reshape[0])
-            newDtypes = tuple(max(dtypes[i:i+reshape[1]]) for i in jumps)
+            newDtypes = tuple(max(dtypes[i:i+reshape[0]]) for i in jumps)
         order = convertToNumpyOrder(order)
         array = self._asNumpyArray()
         values = array.reshape(reshape, order=order)
diff --git a/nimble/core/data/dataframeAxis.py b/nimble/core/data/dataframeAxis.py
index 5074e0c..77c56d6 100644
--- a/nimble/core/data/dataframeAxis.py
+++ b/nimble/core/data/dataframeAxis.py
@@ -213,13 +213,10 @@ class DataFramePoints(DataFrameAxis, Points):
         collapseData = self._base._asNumpyArray()[:, collapseIndices]
         retainData = self._base._asNumpyArray()[:, retainIndices]
 
-        collapseDtypes = (np.dtype(object), max(self._base._data.dtypes))
-        dtypes = []
-        for i in range(len(self._base.features)):
-            if i in retainIndices:
-                dtypes.append(self._base._data.dtypes.iloc[i])
-            elif i == collapseIndices[0]:
-                dtypes.extend(collapseDtypes)
+        # the two features created are always the last features
+        dtypes = list(self._base._data.dtypes.iloc[retainIndices])
+        dtypes.append(np.dtype(object))
+        dtypes.append(max(self._base._data.dtypes.iloc[collapseIndices]))
 
         tmpData = fillArrayWithCollapsedFeatures(
             featuresToCollapse, retainData, collapseData, currNumPoints,
@@ -229,21 +226,24 @@ class DataFramePoints(DataFrameAxis, Points):
         self._base._setDtypes(dtypes)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        uncombined = [dtype for i, dtype in self._base._data.dtypes.items()
-                      if i not in valuesIdx + [namesIdx]]
+        self, uniqueDict, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+        numRetFeatures):
+        uncombined = list(self._base._data.dtypes.iloc[uncombinedIdx])
         combined = list(self._base._data.dtypes.iloc[valuesIdx])
-        dtypes = (uncombined[:namesIdx]
+        dtypes = (uncombined[:insertIdx]
                   + combined * len(uniqueNames)
-                  + uncombined[namesIdx:])
+                  + uncombined[insertIdx:])
 
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
         self._base._data = pd.DataFrame(tmpData)
         if tuple(self._base._data.dtypes) != tuple(dtypes):
             for (i, col), dtype in zip(self._base._data.items(), dtypes):
+                if dtype.kind in 'iub' and col.isna().any():
+                    # the missing values cannot be represented by this dtype
+                    dtype = np.dtype(object if dtype.kind == 'b' else float)
                 if col.dtype !=  dtype:
                     self._base._data[i] = col.astype(dtype)
 
diff --git a/nimble/core/data/listAxis.py b/nimble/core/data/listAxis.py
index c27894f..d185c4f 100644
--- a/nimble/core/data/listAxis.py
+++ b/nimble/core/data/listAxis.py
@@ -224,15 +224,17 @@ class ListPoints(ListAxis, Points):
             retainData.append(retainFeatures)
 
         tmpData = fillArrayWithCollapsedFeatures(
-            featuresToCollapse, retainData, np.array(collapseData),
-            currNumPoints, currFtNames, numRetPoints, numRetFeatures)
+            featuresToCollapse, np.array(retainData, dtype=np.object_),
+            np.array(collapseData, dtype=np.object_), currNumPoints,
+            currFtNames, numRetPoints, numRetFeatures)
 
         self._base._data = tmpData.tolist()
         self._base._numFeatures = numRetFeatures
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+        numRetFeatures):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/matrixAxis.py b/nimble/core/data/matrixAxis.py
index 4b3c33a..b777446 100644
--- a/nimble/core/data/matrixAxis.py
+++ b/nimble/core/data/matrixAxis.py
@@ -208,8 +208,9 @@ class MatrixPoints(MatrixAxis, Points):
         self._base._data = numpy2DArray(tmpData)
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
-        tmpData = fillArrayWithExpandedFeatures(uniqueDict, namesIdx,
+        self, uniqueDict, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+        numRetFeatures):
+        tmpData = fillArrayWithExpandedFeatures(uniqueDict, insertIdx,
                                                 uniqueNames, numRetFeatures,
                                                 len(valuesIdx))
 
diff --git a/nimble/core/data/points.py b/nimble/core/data/points.py
index 64b8f6c..60806c8 100644
--- a/nimble/core/data/points.py
+++ b/nimble/core/data/points.py
@@ -32,7 +32,7 @@ from collections import OrderedDict
 
 import nimble
 from nimble.exceptions import ImproperObjectAction
-from ._dataHelpers import limitedTo2D, prepLog
+from ._dataHelpers import limitedTo2D, prepLog, validateUniqueNames
 
 class Points(ABC):
     """
@@ -1989,20 +1989,25 @@ class Points(ABC):
         numRetPoints = len(self) * numCollapsed
         numRetFeatures = len(features) - numCollapsed + 2
 
+        # validate new feature names before modifying the object
+        ftNames = [features.getName(idx) for idx in retainIndices]
+        ftNames.extend([featureForNames, featureForValues])
+        validateUniqueNames(ftNames)
+        ptNames = None
+        if self._namesCreated():
+            ptNames = []
+            for name in self.getNames():
+                for i in range(numCollapsed):
+                    ptNames.append(None if name is None else f"{name}_{i}")
+
         self._splitByCollapsingFeatures_implementation(
             featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures)
 
         self._base._dims = [numRetPoints, numRetFeatures]
-        ftNames = [features.getName(idx) for idx in retainIndices]
-        ftNames.extend([featureForNames, featureForValues])
         features.setNames(ftNames, useLog=False)
-        if self._base.points._namesCreated():
-            appendedPts = []
-            for name in self.getNames():
-                for i in range(numCollapsed):
-                    appendedPts.append(f"{name}_{i}")
-            self.setNames(appendedPts, useLog=False)
+        if ptNames is not None:
+            self.setNames(ptNames, useLog=False)
 
 
     @limitedTo2D
@@ -2176,11 +2181,9 @@ class Points(ABC):
             for i in adjust:
                 prefixes[i] += '(' + type(uniqueNames[i]).__name__ + ')'
 
-        self._combineByExpandingFeatures_implementation(
-            unique, namesIdx, valuesIdx, uniqueNames, numRetFeatures)
-
-        self._base._dims = [len(unique), numRetFeatures]
-
+        # the expanded features replace the feature with the names, unless
+        # fewer features than its index remain
+        insertIdx = min(namesIdx, len(uncombinedIdx))
         newFtNames = []
         for prefix in prefixes:
             # if only one feature is expanded we will use the unique values
@@ -2189,23 +2192,22 @@ class Points(ABC):
             if numExpanded > 1:
                 for suffix in featuresWithValues:
                     if not isinstance(suffix, str):
-                        if self._base.features._namesCreated():
-                            suffix = self._base.features.getName(suffix)
-                        else:
-                            suffix = str(suffix)
-                    concat = prefix + '_' + suffix
-                    newFtNames.append(concat)
+                        ftName = self._base.features.getName(suffix)
+                        suffix = str(suffix) if ftName is None else ftName
+                    newFtNames.append(prefix + '_' + suffix)
             else:
                 newFtNames.append(prefix)
+        keptFts = [self._base.features.getName(i) for i in uncombinedIdx]
+        fNames = keptFts[:insertIdx] + newFtNames + keptFts[insertIdx:]
+        validateUniqueNames(fNames)
+
+        self._combineByExpandingFeatures_implementation(
+            unique, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+            numRetFeatures)
+
+        self._base._dims = [len(unique), numRetFeatures]
 
-        if self._base.features._namesCreated():
-            origFts = self._base.features.getNames()
-            keptFts = [origFts[i] for i in uncombinedIdx]
-            fNames = keptFts[:namesIdx] + newFtNames + keptFts[namesIdx:]
-            self._base.features.setNames(fNames, useLog=False)
-        else:
-            for i, name in enumerate(newFtNames):
-                self._base.features.setNames( name, oldIdentifiers=namesIdx + i, useLog=False)
+        self._base.features.setNames(fNames, useLog=False)
         if self._base.points._namesCreated():
             self.setNames(pNames, useLog=False)
 
@@ -2987,7 +2989,8 @@ class Points(ABC):
 
     @abstractmethod
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+        numRetFeatures):
         pass
 
     @abstractmethod
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 45f8865..8060774 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -620,7 +620,10 @@ class Sparse(Base):
         binaryRow = []
         binaryCol = []
         binaryData = []
+        values = [0] * len(self.points)
         for ptIdx, val in zip(self._data.row, self._data.data):
+            values[ptIdx] = val
+        for ptIdx, val in enumerate(values):
             ftIdx = uniqueIdx[val]
             binaryRow.append(ptIdx)
             binaryCol.append(ftIdx)
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index c2d4ee4..d9e4e44 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -394,61 +394,58 @@ class SparsePoints(SparseAxis, Points):
     def _splitByCollapsingFeatures_implementation(
             self, featuresToCollapse, collapseIndices, retainIndices,
             currNumPoints, currFtNames, numRetPoints, numRetFeatures):
-        self._base._sortInternal(self._axis)
-        data = self._base._data.data
-        row = self._base._data.row
-        col = self._base._data.col
+        numCollapsed = len(collapseIndices)
+        retainCols = {ft: i for i, ft in enumerate(retainIndices)}
+        collapsePts = {ft: i for i, ft in enumerate(collapseIndices)}
         tmpData = []
         tmpRow = []
         tmpCol = []
-        for ptIdx in range(len(self)):
-            inRetain = [val in retainIndices for val in col]
-            inCollapse = [val in collapseIndices for val in col]
-            retainData = data[(row == ptIdx) & (inRetain)]
-            retainCol = col[(row == ptIdx) & (inRetain)]
-            collapseData = data[(row == ptIdx) & (inCollapse)]
-            sort = np.argsort(collapseIndices)
-            collapseData = collapseData[sort]
-            for idx, value in enumerate(collapseData):
-                tmpData.extend(retainData)
-                tmpRow.extend([ptIdx * len(featuresToCollapse) + idx]
-                              * len(retainData))
-                tmpCol.extend(list(range(len(retainCol))))
-                tmpData.append(currFtNames[idx])
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
-                tmpCol.append(numRetFeatures - 2)
+        for ptIdx, ftIdx, value in zip(self._base._data.row,
+                                       self._base._data.col,
+                                       self._base._data.data):
+            start = ptIdx * numCollapsed
+            if ftIdx in retainCols:
+                tmpData.extend([value] * numCollapsed)
+                tmpRow.extend(range(start, start + numCollapsed))
+                tmpCol.extend([retainCols[ftIdx]] * numCollapsed)
+            else:
                 tmpData.append(value)
-                tmpRow.append(ptIdx * len(featuresToCollapse) + idx)
+                tmpRow.append(start + collapsePts[ftIdx])
                 tmpCol.append(numRetFeatures - 1)
+        for row in range(numRetPoints):
+            name = currFtNames[row % numCollapsed]
+            if name != 0:
+                tmpData.append(name)
+                tmpRow.append(row)
+                tmpCol.append(numRetFeatures - 2)
 
-        tmpData = np.array(tmpData, dtype=np.object_)
-        self._base._data = scipy.sparse.coo_matrix(
-            (tmpData, (tmpRow, tmpCol)), shape=(numRetPoints, numRetFeatures))
+        self._base._data = _cooFromElements(tmpData, tmpRow, tmpCol,
+                                            (numRetPoints, numRetFeatures))
         self._base._resetSorted()
 
     def _combineByExpandingFeatures_implementation(
-        self, uniqueDict, namesIdx, valuesIdx, uniqueNames, numRetFeatures):
+        self, uniqueDict, insertIdx, uncombinedIdx, valuesIdx, uniqueNames,
+        numRetFeatures):
         tmpData = []
         tmpRow = []
         tmpCol = []
         numExpanded = len(valuesIdx)
-        numNewFts = len(uniqueNames) * numExpanded
         for idx, point in enumerate(uniqueDict):
-            tmpPoint = list(point[:namesIdx])
+            tmpPoint = list(point[:insertIdx])
             for name in uniqueNames:
                 if name in uniqueDict[point]:
                     tmpPoint.extend(uniqueDict[point][name])
                 else:
                     tmpPoint.extend([np.nan] * numExpanded)
-            tmpPoint.extend(point[namesIdx:])
-            tmpData.extend(tmpPoint)
-            tmpRow.extend([idx for _ in range(len(point) + numNewFts)])
-            tmpCol.extend(list(range(numRetFeatures)))
-
-        tmpData = np.array(tmpData, dtype=np.object_)
-        shape = (len(uniqueDict), numRetFeatures)
-        self._base._data = scipy.sparse.coo_matrix((tmpData, (tmpRow, tmpCol)),
-                                                   shape=shape)
+            tmpPoint.extend(point[insertIdx:])
+            for col, value in enumerate(tmpPoint):
+                if value != 0:
+                    tmpData.append(value)
+                    tmpRow.append(idx)
+                    tmpCol.append(col)
+
+        self._base._data = _cooFromElements(tmpData, tmpRow, tmpCol,
+                                            (len(uniqueDict), numRetFeatures))
         self._base._resetSorted()
 
 
@@ -545,6 +542,17 @@ class SparseFeaturesView(FeaturesView, SparseFeatures):
 # Generic Helpers #
 ###################
 
+def _cooFromElements(data, row, col, shape):
+    """
+    Create a coo_matrix from lists. The elements are only stored as objects
+    when they are not all numeric.
+    """
+    array = np.array(data)
+    if array.dtype.kind not in 'iuf' or array.ndim != 1:
+        array = np.array(data, dtype=np.object_ if data else float)
+
+    return scipy.sparse.coo_matrix((array, (row, col)), shape=shape)
+
 def _calcShapes(currShape, numExtracted, axisType):
     if axisType == "feature":
         (rowShape, colShape) = currShape
-- 
2.43.0


From ea43b70d14b7a1bdf62af94919d9fafac027ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 22/92] fix: grouping, counting and splitting with missing or
 infinite values, partially named labels and an empty test set

---
 nimble/core/data/_dataHelpers.py | 18 +++++++++++++++---
 nimble/core/data/base.py         | 28 +++++++++++++---------------
 nimble/core/data/sparse.py       |  7 +++++--
 nimble/core/data/sparseAxis.py   | 17 +++++++++--------
 4 files changed, 42 insertions(+), 28 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 13d11f4..f619cab 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -255,6 +255,13 @@ def exceptionDocstringFactory(cls):
         return func
     return exceptionDocstring
 
+def uniqueKey(values):
+    """
+    Hashable key for a vector of values. Every nan is the same value, no
+    matter how it is stored.
+    """
+    return tuple(np.nan if val != val else val for val in values)
+
 def denseAxisUniqueArray(obj, axis):
     """
     Get an array of unique data from non sparse types.
@@ -273,8 +280,9 @@ def denseAxisUniqueArray(obj, axis):
     unique = set()
     uniqueIndices = []
     for i, values in enumerate(data):
-        if tuple(values) not in unique:
-            unique.add(tuple(values))
+        key = uniqueKey(values)
+        if key not in unique:
+            unique.add(key)
             uniqueIndices.append(i)
     uniqueData = data[uniqueIndices]
 
@@ -484,6 +492,8 @@ def _limitAndConvertToArray(obj, points, features):
     pWanted = points if points is not None else slice(None)
     fWanted = features if features is not None else slice(None)
     limited = obj[pWanted, fWanted]
+    if not isinstance(limited, nimble.core.data.Base): # single element
+        return np.array([[limited]], dtype=np.object_)
     return limited.copy(to='numpyarray')
 
 
@@ -512,6 +522,8 @@ def denseCountUnique(obj, points=None, features=None):
         mapping = {}
         nextIdx = [0]
         def mapper(val):
+            if val != val:
+                val = np.nan # every nan is the same value
             if val in mapping:
                 return mapping[val]
 
@@ -519,7 +531,7 @@ def denseCountUnique(obj, points=None, features=None):
             nextIdx[0] += 1
             return mapping[val]
 
-        vectorMap = np.vectorize(mapper)
+        vectorMap = np.vectorize(mapper, otypes=[int])
         array = vectorMap(array)
         intMap = {v: k for k, v in mapping.items()}
         vals, counts = np.unique(array, return_counts=True)
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 98a34d6..8169b76 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1387,16 +1387,18 @@ class Base(ABC):
         """
         # Numbers coming from a float dtyped object that are equivalent to
         # ints are assumed to be int valued labels, and formatted as such.
+        # check that the feature axis doesn't have that string.
+        target = self.features.copy(by, useLog=False)
+        missingKey = "NaN"
+        if any(val == "NaN" for val in target.iterateElements()):
+            missingKey = 'numpy.nan'
+
         def prettyKey(val):
-            undefined = ['', np.NaN, None, np.nan, np.NAN]
             if isinstance(val, str):
                 return val
-            if isinstance(val, numbers.Number):
-                if val in undefined:
-                    # check that the feature axis doesn't have that string.
-                    if "NaN" not in list(self.features.copy(by)):
-                        return "NaN"
-                    return 'numpy.nan'
+            if val is None or val != val:
+                return missingKey
+            if isinstance(val, numbers.Number) and np.isfinite(val):
                 iVal = int(val)
                 return iVal if iVal == val else val
             return val
@@ -1693,7 +1695,8 @@ class Base(ABC):
                     labelNames = labels.features.getNames()
                     # filter names for ones that overlap with self
                     namesInBoth = [name for name in labelNames
-                                   if self.features.hasName(name)]
+                                   if name is not None
+                                   and self.features.hasName(name)]
                     if namesInBoth:
                         trainX.features.delete(namesInBoth, useLog=False)
                         testX.features.delete(namesInBoth, useLog=False)
@@ -1703,13 +1706,8 @@ class Base(ABC):
                     msg += "more than two dimensions"
                     raise ImproperObjectAction(msg)
 
-                # safety for empty objects
-                toExtract = labels
-                if testXSize == 0:
-                    toExtract = []
-
-                trainY = trainX.features.extract(toExtract, useLog=False)
-                testY = testX.features.extract(toExtract, useLog=False)
+                trainY = trainX.features.extract(labels, useLog=False)
+                testY = testX.features.extract(labels, useLog=False)
 
             if self.name is not None:
                 trainX.name = self.name + "_trainX"
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 8060774..182a3cb 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -230,9 +230,12 @@ class Sparse(Base):
             pWanted = points if points is not None else slice(None)
             fWanted = features if features is not None else slice(None)
             source = self[pWanted, fWanted]
-        uniqueCount = denseCountUnique(source._data.data)
+            if not isinstance(source, nimble.core.data.Base): # single element
+                return {source: 1}
+        nonZero = source._data.data[source._data.data != 0]
+        uniqueCount = denseCountUnique(nonZero)
         totalValues = (len(source.points) * len(source.features))
-        numZeros = totalValues - len(source._data.data)
+        numZeros = totalValues - len(nonZero)
         if numZeros > 0:
             uniqueCount[0] = numZeros
         return uniqueCount
diff --git a/nimble/core/data/sparseAxis.py b/nimble/core/data/sparseAxis.py
index d9e4e44..aae808a 100644
--- a/nimble/core/data/sparseAxis.py
+++ b/nimble/core/data/sparseAxis.py
@@ -25,6 +25,7 @@ import numpy as np
 
 import nimble
 from nimble._utility import scipy
+from ._dataHelpers import uniqueKey
 from .axis import Axis
 from .points import Points
 from .views import PointsView
@@ -331,21 +332,19 @@ class SparseAxis(Axis, metaclass=ABCMeta):
             getOffAxisNames = self._base.points.getNames
 
         unique = set()
-        uniqueData = []
+        uniqueLocs = []
         uniqueAxis = []
-        uniqueOffAxis = []
         keepNames = []
         axisCount = 0
         for i in range(count):
-            axisLoc = axisLocator == i
+            axisLocs = np.where((axisLocator == i) & (data != 0))[0]
             # data values can look the same but have zeros in different places;
             # zip with offAxis to ensure the locations are the same as well
-            key = tuple(zip(data[axisLoc], offAxisLocator[axisLoc]))
+            key = (uniqueKey(data[axisLocs]), tuple(offAxisLocator[axisLocs]))
             if key not in unique:
                 unique.add(key)
-                uniqueData.extend(data[axisLoc])
-                uniqueAxis.extend([axisCount for _ in range(sum(axisLoc))])
-                uniqueOffAxis.extend(offAxisLocator[axisLoc])
+                uniqueLocs.extend(axisLocs)
+                uniqueAxis.extend([axisCount] * len(axisLocs))
                 if hasAxisNames:
                     keepNames.append(getAxisName(i))
                 axisCount += 1
@@ -360,7 +359,9 @@ class SparseAxis(Axis, metaclass=ABCMeta):
         if hasOffAxisNames:
             offAxisNames = getOffAxisNames()
 
-        uniqueData = np.array(uniqueData, dtype=np.object_)
+        uniqueLocs = np.array(uniqueLocs, dtype=int)
+        uniqueData = data[uniqueLocs]
+        uniqueOffAxis = offAxisLocator[uniqueLocs]
         if self._isPoint:
             shape = (axisCount, len(self._base.features))
             uniqueCoo = scipy.sparse.coo_matrix(
-- 
2.43.0


From 94f958bd802db826a972dbc5ef22331f0b5c3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 23/92] fix: statistics 'count', sum of non numeric values,
 quartiles of booleans and sparse least squares raised or gave no value

---
 nimble/_utility.py            | 2 ++
 nimble/calculate/linalg.py    | 3 ++-
 nimble/calculate/statistic.py | 3 ++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/_utility.py b/nimble/_utility.py
index 4fdce96..6b49e94 100644
--- a/nimble/_utility.py
+++ b/nimble/_utility.py
@@ -608,6 +608,8 @@ def _getStatsFunction(statsFuncName):
         toCall = nimble.calculate.sum
     elif statsFuncName == 'variance':
         toCall = nimble.calculate.variance
+    elif statsFuncName == 'count':
+        toCall = nimble.calculate.count
     elif statsFuncName == 'uniquecount':
         toCall = nimble.calculate.uniqueCount
     elif statsFuncName == 'proportionmissing':
diff --git a/nimble/calculate/linalg.py b/nimble/calculate/linalg.py
index 8d1bb0c..2f65a71 100644
--- a/nimble/calculate/linalg.py
+++ b/nimble/calculate/linalg.py
@@ -326,7 +326,8 @@ def _backendSolvers(aObj, bObj, solverFunction):
     elif aObj.getTypeString() == 'Sparse':
         aCopy = aObj.copy()
         aData = dtypeConvert(aCopy._data)
-        bData = dtypeConvert(np.asarray(bObj._data))
+        # lsqr requires a one-dimensional right hand side
+        bData = dtypeConvert(np.asarray(bObj._data)).reshape(-1)
         if solverFunction.__name__ == 'solve':
             solution = scipy.sparse.linalg.spsolve(aData, bData)
         else:
diff --git a/nimble/calculate/statistic.py b/nimble/calculate/statistic.py
index 5666e07..1079735 100644
--- a/nimble/calculate/statistic.py
+++ b/nimble/calculate/statistic.py
@@ -425,7 +425,7 @@ def quartiles(values):
     (8.5, 13.0, 17.5)
     """
     # copy as horizontal array to use for intermediate calculations
-    values = dtypeConvert(values.copy(to="numpyarray", outputAs1D=True))
+    values = values.copy(to="numpyarray", outputAs1D=True).astype(np.float64)
     ret = np.nanpercentile(values, (25, 50, 75), overwrite_input=True)
     return tuple(ret)
 
@@ -506,6 +506,7 @@ def count(values):
     """
     return _sum(1 for _ in values.iterateElements(only=nonMissing))
 
+@numericRequired
 def sum(values): # pylint: disable=redefined-builtin
     """
     The sum of the values in the vector.
-- 
2.43.0


From ee96ffd4568b28c0ecd841a39b1c22084fc07c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 24/92] fix: normalize with partially named objects, a single
 feature identifier and percentiles with missing or extreme values

---
 nimble/calculate/normalize.py | 18 +++++++-----------
 nimble/core/data/features.py  | 11 ++++++-----
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/nimble/calculate/normalize.py b/nimble/calculate/normalize.py
index 3c59fd0..96b79f9 100644
--- a/nimble/calculate/normalize.py
+++ b/nimble/calculate/normalize.py
@@ -234,11 +234,9 @@ def percentileNormalize(values1, values2=None):
 
     # index locations of sorted values
     argsort = np.argsort(arr1)
-    anyNan = any(map(np.isnan, arr1))
-    if anyNan: # ignore index for nan
-        epsilon = 1 / (len(arr1) - 2)
-    else:
-        epsilon = 1 / (len(arr1) - 1)
+    # nan values are sorted last and are not ranked
+    numRanked = len(arr1) - np.count_nonzero(np.isnan(arr1))
+    epsilon = 1 / max(numRanked - 1, 1)
     for i, idx in enumerate(argsort):
         if not np.isnan(percentiles[idx]):
             percentiles[idx] = i * epsilon
@@ -280,17 +278,15 @@ def percentileNormalize(values1, values2=None):
 def _interpPercentile(minimum, maximum, sortedValues, sortedPercentiles, val):
     if np.isnan(val):
         return val
-    if val == minimum == maximum:
-        return 0.5 # all values were equal
-    if val <= minimum:
+    if val < minimum:
         return 0.0
-    if val >= maximum:
+    if val > maximum:
         return 1.0
     idx = np.searchsorted(sortedValues, val) # binary search
+    if val == sortedValues[idx]: # same percentile as the equal values
+        return float(sortedPercentiles[idx])
     leftVal, rightVal = sortedValues[idx - 1:idx + 1]
     leftPerc, rightPerc = sortedPercentiles[idx - 1:idx + 1]
-    if val == rightVal:
-        return rightPerc
     fractionToNext = (val - leftVal) / (rightVal - leftVal)
     percDist = rightPerc - leftPerc
     return float(leftPerc + percDist * fractionToNext)
diff --git a/nimble/core/data/features.py b/nimble/core/data/features.py
index b679766..6b68bd2 100644
--- a/nimble/core/data/features.py
+++ b/nimble/core/data/features.py
@@ -38,6 +38,7 @@ from nimble.exceptions import InvalidArgumentType, InvalidArgumentValue
 from nimble.exceptions import InvalidArgumentValueCombination
 from nimble._utility import prettyListString, quoteStrings
 from ._dataHelpers import limitedTo2D, prepLog, validateUniqueNames
+from ._dataHelpers import constructIndicesList, inconsistentNames
 
 class Features(ABC):
     """
@@ -1995,15 +1996,15 @@ class Features(ABC):
                 msg = 'applyResultTo must have the same number of features as '
                 msg += 'the calling object'
                 raise InvalidArgumentValue(msg)
-            selfNames = self._getNamesNoGeneration()
-            applyToNames = applyResultTo.features._getNamesNoGeneration()
-            if ((selfNames is not None and applyToNames is not None)
-                    and selfNames != applyToNames):
+            if (self._namesCreated() and applyResultTo.features._namesCreated()
+                    and inconsistentNames(self._getNames(),
+                                          applyResultTo.features._getNames())):
                 msg = 'applyResultTo featureNames do not match the '
                 msg += 'featureNames of the calling object'
                 raise InvalidArgumentValue(msg)
             if features is not None:
-                features = list(map(self._getIndex, features))
+                features = constructIndicesList(self._base, self._axis,
+                                                features, 'features')
             zipFeatures = zip(self, applyResultTo.features)
             for i, (ft1, ft2) in enumerate(zipFeatures):
                 if features is None or i in features:
-- 
2.43.0


From f934aa17c08ee066e740a7849ff648b79b31c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 25/92] fix: float identifiers, default ends of slices with a
 negative step and hasName of an empty axis

---
 nimble/core/data/axis.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 850572c..25d66aa 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -330,6 +330,14 @@ class Axis(ABC):
             msg = "There are no valid " + self._axis + " identifiers; "
             msg += "this object has 0 " + self._axis + "s"
             raise IndexError(msg)
+        if allowFloats and isinstance(identifier, (float, np.float64)):
+            if identifier % 1: # x!=int(x)
+                idVal = str(identifier)
+                msg = "A float valued key of value x is only accepted if x == "
+                msg += "int(x). The given value was " + idVal + " yet int("
+                msg += idVal + ") = " + str(int(identifier))
+                raise KeyError(msg)
+            identifier = int(identifier)
         if isinstance(identifier, (int, np.integer)):
             if identifier < 0:
                 identifier = num + identifier
@@ -340,14 +348,6 @@ class Axis(ABC):
                 raise IndexError(msg)
         elif isinstance(identifier, str):
             identifier = self._getIndexByName(identifier)
-        elif allowFloats and isinstance(identifier, (float, np.float64)):
-            if identifier % 1: # x!=int(x)
-                idVal = str(identifier)
-                msg = "A float valued key of value x is only accepted if x == "
-                msg += "int(x). The given value was " + idVal + " yet int("
-                msg += idVal + ") = " + str(int(identifier))
-                raise KeyError(msg)
-            identifier = int(identifier)
         else:
             msg = "The identifier must be either a string (a valid "
             msg += self._axis + " name) or an integer (python or numpy) index "
@@ -363,7 +363,7 @@ class Axis(ABC):
         try:
             self._getIndex(name)
             return True
-        except KeyError:
+        except (KeyError, IndexError):
             return False
 
     def _getitem(self, key):
@@ -1067,9 +1067,10 @@ class Axis(ABC):
         if isinstance(key, slice):
             if key == slice(None): # full slice
                 return None
-            start = key.start if key.start is not None else 0
-            stop = key.stop if key.stop is not None else length - 1
             step = key.step if key.step is not None else 1
+            first, last = (0, length - 1) if step > 0 else (length - 1, 0)
+            start = key.start if key.start is not None else first
+            stop = key.stop if key.stop is not None else last
 
             start = self._getIndex(start, allowFloats=True)
             stop = self._getIndex(stop, allowFloats=True)
-- 
2.43.0


From 584b98a1398e60344070e29dc7510ff1e4d0a6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 26/92] fix: match.true and match.false decide numpy booleans

---
 nimble/match/match.py | 4 ++--
 nimble/match/query.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/match/match.py b/nimble/match/match.py
index 36f6ce9..4c89055 100644
--- a/nimble/match/match.py
+++ b/nimble/match/match.py
@@ -443,7 +443,7 @@ def true(value):
     >>> true('True')
     False
     """
-    return boolean(value) and value is True
+    return boolean(value) and bool(value)
 
 def false(value):
     """
@@ -475,7 +475,7 @@ def false(value):
     >>> false('False')
     False
     """
-    return boolean(value) and value is False
+    return boolean(value) and not bool(value)
 
 def anyValues(match):
     """
diff --git a/nimble/match/query.py b/nimble/match/query.py
index 03246ef..de6116e 100644
--- a/nimble/match/query.py
+++ b/nimble/match/query.py
@@ -115,8 +115,8 @@ class QueryString:
     >
     """
     _accepted = {n: getattr(match, n) for n in _setAll(vars(match))}
-    _accepted['True'] = lambda e: e is True
-    _accepted['False'] = lambda e: e is False
+    _accepted['True'] = match.true
+    _accepted['False'] = match.false
     _accepted['None'] = lambda e: e is None
 
     def __init__(self, string, elementQuery=None):
-- 
2.43.0


From 036591643fff64d357ddc7361f3ba737c885534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 27/92] fix: an element function that gives 0 for 0 is applied
 to every other kind of zero

---
 nimble/core/data/_dataHelpers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index f619cab..66dd529 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -622,6 +622,11 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
         # are builtins and that they take one argument (str, int, float, etc.)
         numRequiredArgs = 1
 
+    # whether zeros stay zero, either by request or because the function
+    # returns zero for them. The latter only allows for skipping the zeros that
+    # are not stored, otherwise the function is applied to every value.
+    zerosPreserved = preserveZeros
+
     if numRequiredArgs == 3:
         oneArg = False
 
@@ -634,8 +639,8 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
         # see if we can preserve zeros even if not explicitly set
         if not preserveZeros:
             try:
-                if func(0) == 0:
-                    preserveZeros = True
+                if func(0) == 0 and func(0.0) == 0:
+                    zerosPreserved = True
             # since it is a user function we cannot predict the exception type
             except Exception: # pylint: disable=broad-except
                 pass
@@ -645,7 +650,7 @@ def validateElementFunction(func, preserveZeros, skipNoneReturnValues,
             return elementValidated(value)
 
     wrappedElementFunction.oneArg = oneArg
-    wrappedElementFunction.preserveZeros = preserveZeros
+    wrappedElementFunction.preserveZeros = zerosPreserved
 
     return wrappedElementFunction
 
-- 
2.43.0


From c186b844f6b8fa78a0840c7ac9d811d41bf4c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 28/92] fix: copies of mixed data with features first and of
 empty views keep values and names

---
 nimble/core/data/base.py   | 2 +-
 nimble/core/data/list.py   | 5 ++++-
 nimble/core/data/sparse.py | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 8169b76..9ba6b87 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3864,7 +3864,7 @@ class Base(ABC):
         if len(self._dims) > 2:
             ret = np.reshape(ret, self._dims).tolist()
         if not rowsArePoints:
-            ret = np.transpose(ret).tolist()
+            ret = list(map(list, zip(*ret)))
         return ret
 
     def _copy_nestedPythonTypes(self, to, rowsArePoints):
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index 3b778b5..ed241b3 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -674,7 +674,10 @@ class ListView(BaseView, List):
         if ((len(self.points) == 0 or len(self.features) == 0)
                 and to != 'List'):
             emptyStandin = np.empty(self._dims)
-            intermediate = nimble.data(emptyStandin, useLog=False)
+            intermediate = nimble.data(
+                emptyStandin, pointNames=self.points._getNamesNoGeneration(),
+                featureNames=self.features._getNamesNoGeneration(),
+                useLog=False)
             return intermediate.copy(to=to)
 
         # fastest way to generate list of view data
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 182a3cb..7a132a4 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -1184,7 +1184,10 @@ class SparseView(BaseView, Sparse):
 
         if len(self.points) == 0 or len(self.features) == 0:
             emptyStandin = np.empty(self._dims)
-            intermediate = nimble.data(emptyStandin, useLog=False)
+            intermediate = nimble.data(
+                emptyStandin, pointNames=self.points._getNamesNoGeneration(),
+                featureNames=self.features._getNamesNoGeneration(),
+                useLog=False)
             return intermediate.copy(to=to)
 
         if to == 'numpyarray':
-- 
2.43.0


From 7c97b8c1c2a2e0776553e33adf2ddef93ac1b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 29/92] fix: plotHeatMap converted the values of the object it
 plots

---
 nimble/core/data/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 9ba6b87..4763a18 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2908,8 +2908,9 @@ class Base(ABC):
         --------
         chart, figure, image, graphics, visualization, matrix, map
         """
-        self._plot(includeColorbar, outPath, show, title, xAxisLabel,
-                   yAxisLabel, **kwargs)
+        # a copy because the data is converted to numeric types
+        self.copy()._plot(includeColorbar, outPath, show, title, xAxisLabel,
+                          yAxisLabel, **kwargs)
 
     @pyplotRequired
     def _plot(self, includeColorbar, outPath, show, title, xAxisLabel,
-- 
2.43.0


From 846d35089357be1dbaacd18655c9d0a39092ca8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:34 +0000
Subject: [PATCH 30/92] fix: views of Matrix, DataFrame and Sparse objects
 reflect changes that replace the data of the source

---
 nimble/core/data/base.py      |   1 +
 nimble/core/data/dataframe.py |  44 +++++++-------
 nimble/core/data/matrix.py    |  10 ++++
 nimble/core/data/sparse.py    | 106 +++++++++++++++++++++++-----------
 4 files changed, 104 insertions(+), 57 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 4763a18..043f02c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1933,6 +1933,7 @@ class Base(ABC):
             userblockSize = 0
         with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
             for name, point in zip(pnames, self.points):
+                point = point.copy() # views cannot be converted
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
                 _ = hdf.create_dataset(name, data=asArray)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index b599787..8e03dd4 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -162,22 +162,18 @@ class DataFrame(Base):
         Function to write the data in this object to a CSV file at the
         designated path.
         """
+        toSave = self._data.copy(deep=False)
         with open(outPath, 'w', encoding='utf-8') as outFile:
             if includeFeatureNames:
-                self._data.columns = self.features.getNames()
+                toSave.columns = self.features.getNames()
                 if includePointNames:
                     outFile.write('pointNames')
 
             if includePointNames:
-                self._data.index = self.points.getNames()
+                toSave.index = self.points.getNames()
 
-        self._data.to_csv(outPath, mode='a', index=includePointNames,
-                          header=includeFeatureNames)
-
-        if includePointNames:
-            self._data.index = pd.RangeIndex(len(self._data.index))
-        if includeFeatureNames:
-            self._data.columns = pd.RangeIndex(len(self._data.columns))
+        toSave.to_csv(outPath, mode='a', index=includePointNames,
+                      header=includeFeatureNames)
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
@@ -416,8 +412,6 @@ class DataFrame(Base):
         kwds['data'] = self._data.iloc[pointStart:pointEnd,
                                        featureStart:featureEnd]
         kwds['source'] = self
-        pRange = pointEnd - pointStart
-        fRange = featureEnd - featureStart
         if len(self._dims) > 2:
             if dropDimension:
                 shape = self._dims[1:]
@@ -426,25 +420,16 @@ class DataFrame(Base):
                 kwds['data'] = source._data
                 pointStart, pointEnd = 0, source.shape[0]
                 featureStart, featureEnd = 0, source.shape[1]
-                pRange = source.shape[0]
-                fRange = source.shape[1]
             else:
                 shape = self._dims.copy()
-                shape[0] = pRange
+                shape[0] = pointEnd - pointStart
             kwds['shape'] = shape
         kwds['pointStart'] = pointStart
         kwds['pointEnd'] = pointEnd
         kwds['featureStart'] = featureStart
         kwds['featureEnd'] = featureEnd
 
-        ret = DataFrameView(**kwds)
-
-        # Reassign labels as to match the positions in the view object,
-        # not the positions in the source object.
-        ret._data.index = pd.RangeIndex(pRange)
-        ret._data.columns = pd.RangeIndex(fRange)
-
-        return ret
+        return DataFrameView(**kwds)
 
     def _createNestedObject(self, pointIndex):
         """
@@ -599,6 +584,21 @@ class DataFrameView(BaseView, DataFrame):
     """
     Read only access to a DataFrame object.
     """
+    @property
+    def _data(self):
+        # the source may replace its data when modified, so the window is
+        # always taken from the current data of the source
+        window = self._source._data.iloc[self._pStart:self._pEnd,
+                                         self._fStart:self._fEnd]
+        # Reassign labels as to match the positions in the view object,
+        # not the positions in the source object.
+        window.index = pd.RangeIndex(window.shape[0])
+        window.columns = pd.RangeIndex(window.shape[1])
+        return window
+
+    @_data.setter
+    def _data(self, data):
+        pass
 
     def _getPoints(self, names):
         return DataFramePointsView(self, names)
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index b507d7b..5fd6a16 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -505,6 +505,16 @@ class MatrixView(BaseView, Matrix):
     """
     Read only access to a Matrix object.
     """
+    @property
+    def _data(self):
+        # the source may replace its data when modified, so the window is
+        # always taken from the current data of the source
+        return self._source._data[self._pStart:self._pEnd,
+                                  self._fStart:self._fEnd]
+
+    @_data.setter
+    def _data(self, data):
+        pass
 
     def _getPoints(self, names):
         return MatrixPointsView(self, names)
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index 7a132a4..e028082 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -703,6 +703,46 @@ class Sparse(Base):
             # Re-sort and re-index
             self._sortInternal(self._sorted['axis'], setIndices=True, forceSort=True)
 
+    def _vectorWindow(self, pointStart, pointEnd, featureStart, featureEnd):
+        """
+        The values stored within a window of one point or one feature and
+        their positions along the other axis of the window.
+        """
+        allPoints = pointStart == 0 and pointEnd == len(self.points)
+        allFeats = featureStart == 0 and featureEnd == len(self.features)
+        singlePoint = pointEnd - pointStart == 1
+
+        axis = 'point' if singlePoint else 'feature'
+        self._sortInternal(axis, setIndices=True)
+
+        if singlePoint:
+            primaryStart = pointStart
+            allOtherAxis = allFeats
+            sortedSecondary = self._data.col
+            secondaryStart = featureStart
+            secondaryEnd = featureEnd
+        else:
+            primaryStart = featureStart
+            allOtherAxis = allPoints
+            sortedSecondary = self._data.row
+            secondaryStart = pointStart
+            secondaryEnd = pointEnd
+
+        # start and end values have already been stored during sorting
+        sortedAxisIndices = self._sorted['indices']
+        start, end = sortedAxisIndices[primaryStart:primaryStart + 2]
+        if not allOtherAxis:
+            secondaryLimited = sortedSecondary[start:end]
+            targetSecondary = [secondaryStart, secondaryEnd]
+            innerStart, innerEnd = np.searchsorted(secondaryLimited,
+                                                   targetSecondary)
+            outerStart = start
+            start = start + innerStart
+            end = outerStart + innerEnd
+
+        return (self._data.data[start:end],
+                sortedSecondary[start:end] - secondaryStart)
+
     def _view_implementation(self, pointStart, pointEnd, featureStart,
                              featureEnd, dropDimension):
         """
@@ -718,42 +758,15 @@ class Sparse(Base):
         kwds['featureStart'] = featureStart
         kwds['featureEnd'] = featureEnd
 
-        allPoints = pointStart == 0 and pointEnd == len(self.points)
         singlePoint = pointEnd - pointStart == 1
-        allFeats = featureStart == 0 and featureEnd == len(self.features)
         singleFeat = featureEnd - featureStart == 1
         # singleFeat = singlePoint = False
         if singleFeat or singlePoint:
             pshape = pointEnd - pointStart
             fshape = featureEnd - featureStart
 
-            axis = 'point' if singlePoint else 'feature'
-            self._sortInternal(axis, setIndices=True)
-
-            if singlePoint:
-                primaryStart = pointStart
-                allOtherAxis = allFeats
-                sortedSecondary = self._data.col
-                secondaryStart = featureStart
-                secondaryEnd = featureEnd
-            else:
-                primaryStart = featureStart
-                allOtherAxis = allPoints
-                sortedSecondary = self._data.row
-                secondaryStart = pointStart
-                secondaryEnd = pointEnd
-
-            # start and end values have already been stored during sorting
-            sortedAxisIndices = self._sorted['indices']
-            start, end = sortedAxisIndices[primaryStart:primaryStart + 2]
-            if not allOtherAxis:
-                secondaryLimited = sortedSecondary[start:end]
-                targetSecondary = [secondaryStart, secondaryEnd]
-                innerStart, innerEnd = np.searchsorted(secondaryLimited,
-                                                       targetSecondary)
-                outerStart = start
-                start = start + innerStart
-                end = outerStart + innerEnd
+            data, sortedSecondary = self._vectorWindow(
+                pointStart, pointEnd, featureStart, featureEnd)
             # high dimension data only allowed for points
             if singlePoint and len(self._dims) > 2:
                 if dropDimension:
@@ -766,12 +779,12 @@ class Sparse(Base):
                     kwds['featureEnd'] = int(np.prod(self._dims[2:]))
                 else:
                     firstIdx = 0
-                primary = sortedSecondary[start:end] // fshape
-                secondary = sortedSecondary[start:end] % fshape
+                primary = sortedSecondary // fshape
+                secondary = sortedSecondary % fshape
                 kwds['shape'] = [pshape] + self._dims[firstIdx + 1:]
             else:
-                primary = np.zeros((end - start,), dtype=int)
-                secondary = sortedSecondary[start:end] - secondaryStart
+                primary = np.zeros((len(data),), dtype=int)
+                secondary = sortedSecondary
 
             if singlePoint:
                 row = primary
@@ -780,8 +793,6 @@ class Sparse(Base):
                 col = primary
                 row = secondary
 
-            data = self._data.data[start:end]
-
             newInternal = Sparse._cooMatrixSkipCheck(
                 (data, (row, col)), shape=(pshape, fshape), copy=False)
             kwds['data'] = newInternal
@@ -1128,6 +1139,31 @@ class SparseVectorView(BaseView, Sparse):
     A view of a Sparse data object limited to a full point or full
     feature.
     """
+    @property
+    def _data(self):
+        if self._fixedData is not None:
+            return self._fixedData
+        # the source may replace its data when modified, so the window is
+        # always taken from the current data of the source
+        data, positions = self._source._vectorWindow(
+            self._pStart, self._pEnd, self._fStart, self._fEnd)
+        zeros = np.zeros((len(data),), dtype=int)
+        shape = (self._pEnd - self._pStart, self._fEnd - self._fStart)
+        index = (zeros, positions) if shape[0] == 1 else (positions, zeros)
+
+        return Sparse._cooMatrixSkipCheck((data, index), shape=shape,
+                                          copy=False)
+
+    @_data.setter
+    def _data(self, data):
+        # views of high dimension data do not address a single vector
+        fixed = len(self._source._dims) > 2 or 1 not in data.shape
+        self._fixedData = data if fixed else None
+
+    def _sortInternal(self, axis, setIndices=False, forceSort=False):
+        # the data could have changed since the last sort
+        self._resetSorted()
+        super()._sortInternal(axis, setIndices, forceSort)
 
     def _getPoints(self, names):
         return SparsePointsView(self, names)
-- 
2.43.0


From 3f5920f79dd1b93436f412993a6fbc2e3bcf5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:13 +0000
Subject: [PATCH 31/92] fix: arithmetic mixing boolean and float values raised
 for missing values

---
 nimble/core/data/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 043f02c..063508a 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -5481,6 +5481,14 @@ class Base(ABC):
                 otherData = other.copy('numpyarray')
         else:
             otherData = other
+        # numpy uses object arrays when booleans are mixed with floats
+        if selfData.dtype == np.object_:
+            types = set(map(type, selfData.ravel()))
+            if (not types.isdisjoint((bool, np.bool_))
+                    and not types.isdisjoint((float, np.float64))
+                    and all(issubclass(t, (bool, np.bool_, int, float,
+                                           np.number)) for t in types)):
+                selfData = selfData.astype(float)
         data = getattr(selfData, opName)(otherData)
         ret = createDataNoValidation(self.getTypeString(), data)
 
-- 
2.43.0


From fc7ac7da6942e26450f103e2ff12b73564c8d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 32/92] fix: a seed refused by setSeed left one of the two
 sources of randomness modified

---
 nimble/random/randomness.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/random/randomness.py b/nimble/random/randomness.py
index 5fb3184..11e949a 100644
--- a/nimble/random/randomness.py
+++ b/nimble/random/randomness.py
@@ -51,8 +51,14 @@ def setSeed(seed, *, useLog=None):
         msg += 'state of randomness'
         raise RuntimeError(msg)
 
+    pythonState = pythonRandom.getstate()
     pythonRandom.seed(seed)
-    numpyRandom.seed(seed)
+    try:
+        numpyRandom.seed(seed)
+    except Exception:
+        # python accepts more seeds than numpy, do not leave the two apart
+        pythonRandom.setstate(pythonState)
+        raise
 
     handleLogging(useLog, 'setSeed', 'random.setSeed', seed=seed)
 
-- 
2.43.0


From 0a09b9f8c1a7e440c061f35538ff35969433dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 33/92] fix: incrementalTrain without a seed took its
 randomness from the operating system

---
 nimble/core/interfaces/universal_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a7b90e6..e0efe0b 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1511,6 +1511,8 @@ class TrainedLearner(object):
             global option.
         """
         validateLearningArguments(trainX, trainY)
+        # without a seed, still controlled by Nimble's randomness
+        randomSeed = self._interface._getValidSeed(randomSeed)
         if arguments is not None:
             self.arguments.update(arguments)
         transformed = self._interface._inputTransformation(
-- 
2.43.0


From dc3b05b2020c4183fde74c129805550651ce929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 34/92] fix: the folds and holdouts of validation and tuning
 ignored the randomSeed

---
 nimble/core/tune.py | 76 ++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index abd34be..c5b3eb9 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -281,7 +281,8 @@ class CrossValidator(Validator):
                          useLog, **kwargs)
         # a result should be added here for every fold
         self._deepResults = []
-        self._foldIterator = foldIterator([self.X, self.Y], **kwargs)
+        with nimble.random.alternateControl(self.randomSeed, useLog=False):
+            self._foldIterator = foldIterator([self.X, self.Y], **kwargs)
 
     def _validate(self, arguments):
         """
@@ -297,34 +298,38 @@ class CrossValidator(Validator):
         foldByFold = []
         deepLog = loggingEnabled(self.useLog) and deepLoggingEnabled()
         numFolds = len(self._foldIterator.foldList)
-        for foldNum, fold in enumerate(self._foldIterator):
-            [(curTrainX, curTestingX), (curTrainY, curTestingY)] = fold
-            #run algorithm on the folds' training and testing sets
-            startTime = time.process_time()
-            curRunResult = nimble.trainAndApply(
-                self.learnerName, curTrainX, curTrainY, curTestingX,
-                arguments=arguments, randomSeed=self.randomSeed, useLog=False)
-
-            # calculate error of prediction, using performanceFunction
-            curPerformance = computeMetrics(curTestingY, None, curRunResult,
-                                            self.performanceFunction)
-
-            totalTime = time.process_time() - startTime
-
-            foldByFold.append(curPerformance)
-            performances.append(curRunResult)
-            if collectedY is None:
-                collectedY = curTestingY
-            else:
-                collectedY.points.append(curTestingY, useLog=False)
+        # the shuffling of each training set is contingent on the random seed
+        with nimble.random.alternateControl(self.randomSeed, useLog=False):
+            for foldNum, fold in enumerate(self._foldIterator):
+                [(curTrainX, curTestingX), (curTrainY, curTestingY)] = fold
+                #run algorithm on the folds' training and testing sets
+                startTime = time.process_time()
+                curRunResult = nimble.trainAndApply(
+                    self.learnerName, curTrainX, curTrainY, curTestingX,
+                    arguments=arguments, randomSeed=self.randomSeed,
+                    useLog=False)
+
+                # calculate error of prediction, using performanceFunction
+                curPerformance = computeMetrics(
+                    curTestingY, None, curRunResult, self.performanceFunction)
+
+                totalTime = time.process_time() - startTime
+
+                foldByFold.append(curPerformance)
+                performances.append(curRunResult)
+                if collectedY is None:
+                    collectedY = curTestingY
+                else:
+                    collectedY.points.append(curTestingY, useLog=False)
 
-            metrics = {self.performanceFunction.__name__: curPerformance}
-            extraInfo = {'Fold': f'{foldNum + 1}/{numFolds}'}
+                metrics = {self.performanceFunction.__name__: curPerformance}
+                extraInfo = {'Fold': f'{foldNum + 1}/{numFolds}'}
 
-            handleLogging(deepLog, "deepRun", self.__class__.__name__,
-                          curTrainX, curTrainY, curTestingX, curTestingY,
-                          self.learnerName, arguments, self.randomSeed,
-                          metrics=metrics, extraInfo=extraInfo, time=totalTime)
+                handleLogging(deepLog, "deepRun", self.__class__.__name__,
+                              curTrainX, curTrainY, curTestingX, curTestingY,
+                              self.learnerName, arguments, self.randomSeed,
+                              metrics=metrics, extraInfo=extraInfo,
+                              time=totalTime)
 
         self._deepResults.append(foldByFold)
 
@@ -603,14 +608,16 @@ class HoldoutData(HoldoutValidator):
     def _validate(self, arguments):
         if self._trainedLearner is None:
             self._trainedLearnerBase = nimble.train(
-                self.learnerName, self.X, self.Y, arguments, useLog=False)
+                self.learnerName, self.X, self.Y, arguments,
+                randomSeed=self.randomSeed, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
             self._lastArguments = arguments
         elif self._updater is None:
             if self._incremental is None:
                 try:
                     self._trainedLearner.incrementalTrain(
-                        self.X, self.Y, arguments, useLog=False)
+                        self.X, self.Y, arguments,
+                        randomSeed=self.randomSeed, useLog=False)
                     self._updater = self._trainedLearner.incrementalTrain
                     self._incremental = True
                 except TypeError:
@@ -620,10 +627,12 @@ class HoldoutData(HoldoutValidator):
                 # only retrain if arguments have changed
                 if arguments != self._lastArguments:
                     self._trainedLearner.retrain(self.X, self.Y, arguments,
+                                                 randomSeed=self.randomSeed,
                                                  useLog=False)
             self._lastArguments = arguments
         elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments, useLog=False)
+            self._updater(self.X, self.Y, arguments,
+                          randomSeed=self.randomSeed, useLog=False)
             self._lastArguments = arguments
 
         performance = self._trainedLearner.test(
@@ -673,8 +682,11 @@ class HoldoutProportion(HoldoutValidator):
             raise InvalidArgumentValue(msg)
         self.proportion = proportion
         number = int(proportion * len(X.points))
-        selection = numpyRandom.choice(range(len(X.points)), number,
-                                       replace=False)
+        if randomSeed is None:
+            randomSeed = nimble.random.generateSubsidiarySeed()
+        with nimble.random.alternateControl(randomSeed, useLog=False):
+            selection = numpyRandom.choice(range(len(X.points)), number,
+                                           replace=False)
         X = X.copy()
         validateX = X.points.extract(selection, useLog=False)
         if isinstance(Y, (int, str, list)):
-- 
2.43.0


From b0c4f5c81971997f2321f02e686bf303b12bb297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 35/92] fix: settings with a percent sign could not be saved or
 read back

---
 nimble/core/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 3ff8888..f4ce46d 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -87,7 +87,8 @@ class SessionConfiguration(object):
         changes to that configuration set and gives the user control
         over which changes should be saved and when.
         """
-        self.parser = configparser.ConfigParser()
+        # values are used as given, '%' has no special meaning
+        self.parser = configparser.ConfigParser(interpolation=None)
         # Needs to be set if you want option names to be case sensitive
         self.parser.optionxform = str
         self.parser.read(path)
-- 
2.43.0


From d7028e2cb164a7c158b40648d0b0eb475f1e44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 36/92] fix: modifying the dictionary returned by
 settings.get() modified the settings

---
 nimble/core/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index f4ce46d..60fc780 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -155,7 +155,7 @@ class SessionConfiguration(object):
             # section not in changes or config file
             raise configparser.NoSectionError(section)
 
-        ret = self.changes.copy()
+        ret = {sec: opts.copy() for sec, opts in self.changes.items()}
         for cpSection in self.parser.sections():
             if cpSection not in ret:
                 ret[cpSection] = {}
-- 
2.43.0


From 11494e6a6438516af8f1992a540e55ae88b0eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 37/92] fix: hook not called when set() returns an option to
 its saved value

---
 nimble/core/configuration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nimble/core/configuration.py b/nimble/core/configuration.py
index 60fc780..7beb792 100644
--- a/nimble/core/configuration.py
+++ b/nimble/core/configuration.py
@@ -223,6 +223,7 @@ class SessionConfiguration(object):
                 del self.changes[section][option]
                 if len(self.changes[section]) == 0:
                     del self.changes[section]
+                self._callHook(section, option, value)
                 return
         except configparser.NoSectionError:
             pass
@@ -264,7 +265,12 @@ class SessionConfiguration(object):
             self.changes[section] = {}
         self.changes[section][option] = value
 
-        # call hook if available
+        self._callHook(section, option, value)
+
+    def _callHook(self, section, option, value):
+        """
+        Call the hook of the option with its new value, if there is one.
+        """
         key = (section, option)
         if key in self.hooks and self.hooks[key] is not None:
             self.hooks[key](value)
-- 
2.43.0


From 8eea55c9dee7aea527c8bed5e6055f265f91c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 38/92] fix: showLog took % and _ of searchForText as wildcards

---
 nimble/core/logger/session_logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index 9bfdfe4..bdddbe0 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -933,8 +933,11 @@ def _showLogQueryAndValues(leastSessionsAgo, mostSessionsAgo, startDate,
             searchForText = re.compile(searchForText).pattern
             whereQueryList.append("(logType REGEXP ? or logInfo REGEXP ?)")
         else:
+            # the text is searched as is, it can contain LIKE wildcards
+            searchForText = re.sub(r'([\\%_])', r'\\\1', searchForText)
             searchForText = "%" + searchForText + "%"
-            whereQueryList.append("(logType LIKE ? or logInfo LIKE ?)")
+            whereQueryList.append("(logType LIKE ? ESCAPE '\\' "
+                                  "or logInfo LIKE ? ESCAPE '\\')")
         includedValues.append(searchForText)
         includedValues.append(searchForText)
 
-- 
2.43.0


From 31bf665d5c1115ef3fe8ef7cc61f11fb2ba42795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 39/92] fix: showLog compared startDate and endDate as text and
 refused datetime objects

---
 nimble/core/logger/session_logger.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nimble/core/logger/session_logger.py b/nimble/core/logger/session_logger.py
index bdddbe0..0f0e8f1 100644
--- a/nimble/core/logger/session_logger.py
+++ b/nimble/core/logger/session_logger.py
@@ -164,9 +164,7 @@ def showLog(levelOfDetail=2, leastSessionsAgo=0, mostSessionsAgo=1,
         raise InvalidArgumentValue(msg)
     if (startDate is not None
             and endDate is not None
-            and startDate > endDate):
-        startDate = stringToDatetime(startDate)
-        endDate = stringToDatetime(endDate)
+            and stringToDatetime(startDate) > stringToDatetime(endDate)):
         msg = "The startDate must be before the endDate"
         raise InvalidArgumentValueCombination(msg)
     if leastSessionsAgo is not None:
@@ -823,8 +821,10 @@ def stringToDatetime(string):
     if any value cannot be converted to an integer. Last, an attempt to
     create the datetime.datetime object is made, if it deems a value to
     be invalid (i.e a date that doesn't exist) this will also raise a
-    ValueError.
+    ValueError. A datetime object is returned as is.
     """
+    if isinstance(string, datetime.datetime):
+        return string
     string = string.strip()
 
     datetimeArgs = []
-- 
2.43.0


From 7cd82db50c521df6c8e8e1e1ab51000d49a219fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 40/92] fix: keep user provided names when the other axis is
 detected, and do not detect duplicate headers

---
 nimble/core/_createHelpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 917540b..48cea6b 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -175,8 +175,9 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
     """
     Determine if first row or column contains names.
     """
-    failPN = isinstance(pointNames, bool) and pointNames
-    failFN = isinstance(featureNames, bool) and featureNames
+    # names provided by the user are returned as is
+    failPN = False if pointNames == 'automatic' else pointNames
+    failFN = False if featureNames == 'automatic' else featureNames
     if isEmptyRaw(firstValues):
         return (failPN, failFN)
     if isEmptyRaw(secondValues):
@@ -194,9 +195,11 @@ def autoDetectNamesFromRaw(pointNames, featureNames, firstValues,
                    and noDuplicates(firstValues[1:]))
         anyNum = any(map(isNum, secondValues[1:]))
     else:
+        # the first value is not a feature name if there are point names
+        start = 1 if pointNames is True else 0
         allText = (all(map(lambda x: isinstance(x, str),
                            firstValues))
-                   and noDuplicates(firstValues[1:]))
+                   and noDuplicates(firstValues[start:]))
         anyNum = any(map(isNum, secondValues))
 
     if featureNames == 'automatic' and allText and anyNum:
-- 
2.43.0


From c4a99698bdf1e3effd65e5090dea7a07565cf467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 41/92] fix: allow names to be extracted from rows that are not
 lists

---
 nimble/core/_createHelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 48cea6b..dbb59ba 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -250,8 +250,9 @@ def extractNamesFromRawList(rawData, pnamesID, fnamesID, copied):
     pnamesID, fnamesID = autoDetectNamesFromRaw(pnamesID, fnamesID, firstRow,
                                                 secondRow)
 
-    if not copied and (pnamesID is True or fnamesID is True):
-        rawData = [lst.copy() for lst in rawData]
+    if pnamesID is True or fnamesID is True:
+        # the names are removed from the rows, which may not be lists
+        rawData = [list(row) for row in rawData]
         copied = True
     retPNames = None
     if pnamesID is True:
-- 
2.43.0


From 5452fffc714f1113c83c3ccbaeda422354454450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 42/92] fix: do not take the first list of a dict as feature
 names

---
 nimble/core/_createHelpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index dbb59ba..103f98c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -524,6 +524,8 @@ def _extractNamesFromDict(rawData, pointNames, featureNames, copied):
             if featureNames is True:
                 msg = 'featureNames cannot be True when source is a dict'
                 raise InvalidArgumentValue(msg)
+            if featureNames == 'automatic':
+                featureNames = None
 
         # rawData is now a list of lists, a list of dicts, or
         # something else. In all these cases we go back to extractNames
-- 
2.43.0


From f4965ef61d9b6cef011da0281b4b1b24e99a092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 43/92] fix: replace implicit zeros of sparse sources and do
 not truncate replaceMissingWith

---
 nimble/core/_createHelpers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 103f98c..9fec740 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1011,6 +1011,11 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
             if data.dtype == bool and not isinstance(replaceMissingWith, bool):
                 # numpy will replace with bool(replaceWith) instead
                 raise ValueError('replaceWith is not a bool type')
+            if (np.issubdtype(data.dtype, np.integer)
+                    and isinstance(replaceMissingWith, float)
+                    and not replaceMissingWith.is_integer()):
+                # numpy would truncate the value
+                raise ValueError('replaceWith is not an integer')
             data[replaceLocs] = replaceMissingWith
         except ValueError:
             dtype = type(replaceMissingWith)
@@ -1021,6 +1026,11 @@ def _replaceMissingData(rawData, treatAsMissing, replaceMissingWith, copied):
 
         return data
 
+    if (_isScipySparse(rawData)
+            and any(isNum(val) and val == 0 for val in treatAsMissing)):
+        # the zeros to replace are not stored
+        rawData = sparseMatrixToArray(rawData)
+        copied = True
     if _isNumpyArray(rawData):
         replaceLocs = getNumpyReplaceLocations(rawData)
         if replaceLocs.any():
-- 
2.43.0


From 775641586857d8ea4b9b1598c079e6badef47743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 44/92] fix: do not modify the convertToType dictionary

---
 nimble/core/_createHelpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 9fec740..7820958 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1350,6 +1350,7 @@ def convertToTypeDictToList(convertToType, featuresObj, featureNames):
     conversion.
     """
     retFNames = featuresObj._getNamesNoGeneration()
+    convertToType = convertToType.copy() # used entries are removed below
     convertList = [None] * len(featuresObj)
     # if no feature names, we will use the list of None values as the
     # featureNames to allow us to use the same process in either case
-- 
2.43.0


From 36a0d675621812b1f31c2d7afaa9972871d51816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:00 +0000
Subject: [PATCH 45/92] fix: reorder unnamed points and features given by
 keepPoints and keepFeatures

---
 nimble/core/_createHelpers.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 7820958..c104aad 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1681,8 +1681,7 @@ def initDataObject(
             setPtNamesAfter = True
         cleaned = getKeepIndexValues(ret.points, keepPoints)
         if len(cleaned) == numPts:
-            pCmp = makeCmp(cleaned, ret, 'point')
-            ret.points.sort(by=pCmp)
+            ret.points.permute(cleaned, useLog=False)
         else:
             ret = ret.points.copy(cleaned)
         # if we had a subset of pointNames can set now on the cleaned data
@@ -1712,8 +1711,7 @@ def initDataObject(
                 msg += f"but was length {len(convertToType)}."
                 raise InvalidArgumentValue(msg)
         if len(cleaned) == numFts:
-            fCmp = makeCmp(cleaned, ret, 'feature')
-            ret.features.sort(by=fCmp)
+            ret.features.permute(cleaned, useLog=False)
         else:
             ret = ret.features.copy(cleaned)
         # if we had a subset of featureNames can set now on the cleaned data
-- 
2.43.0


From c31da60ae736a656e1717d9f0271a93ef852efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 46/92] fix: csv first columns are point names only when they
 were to be detected and have no duplicates

---
 nimble/core/_createHelpers.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c104aad..669ac7f 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2461,6 +2461,8 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
     # these are saved to use in further autodetection
     rowReader = csv.reader(ioStream, dialect)
     possiblePtNames = False
+    # pointNames is redefined below
+    detectPtNames = isinstance(pointNames, str)
     try:
         firstRow = next(rowReader)
         while firstRow == []:
@@ -2490,7 +2492,8 @@ def _checkCSVForNames(ioStream, pointNames, featureNames, dialect):
         pointNames, featureNames, firstDataRow, secondDataRow)
 
     # possible pointNames if first was missing and rest could be featureNames
-    trackPoints = possiblePtNames and featureNames
+    # unless point names were specified or the first row is not the names
+    trackPoints = possiblePtNames and featureNames is True and detectPtNames
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
@@ -2885,7 +2888,12 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     firstRowLength = None
     if featureNames is True:
         retFNames = [v if v else None for v in next(lineReader)]
-        if pointNames is True or trackPoints:
+        if trackPoints:
+            # the first column contains names only if there are no duplicates
+            lineReader = list(lineReader)
+            possibleNames = [row[0] for row in lineReader]
+            pointNames = len(possibleNames) == len(set(possibleNames))
+        if pointNames is True:
             retFNames = retFNames[1:]
         firstRowLength = len(retFNames)
         lengthDefiningLine = skippedLines
@@ -2934,29 +2942,15 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     convertCols = None
     nonNumericFeatures = set()
     allEmptyFeatures = set()
-    possiblePtNames = set()
     # lineReader is now at the first line of data
     for i, row in enumerate(lineReader):
-        if pointNames is True or trackPoints:
+        if pointNames is True:
             ptName = row[0]
             row = row[1:]
         elif pointNames and len(pointNames) > len(keepPoints):
             ptName = pointNames[i]
         else:
             ptName = None
-        if trackPoints:
-            if ptName in possiblePtNames:
-                # duplicate value, need to add possible names back in as data
-                for idx, name in enumerate(extractedPointNames):
-                    if retData[idx] is not None:
-                        retData[idx].insert(0, name)
-                row.insert(0, ptName)
-                retFNames.insert(0, None)
-                firstRowLength += 1
-                trackPoints = False
-                pointNames = False
-            else:
-                possiblePtNames.add(ptName)
         if not keepFeaturesValidated:
             if any(val >= len(row) for val in keepFeatures):
                 for val in keepFeatures:
@@ -3009,7 +3003,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
 
             if keepPoints == 'all':
                 retData.append(row)
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames.append(ptName)
             else:
                 if ptName is not None and ptName in keepPoints:
@@ -3021,7 +3015,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                 location = keepPoints.index(locate)
                 locatedPoints.append(locate)
                 retData[location] = row
-                if pointNames is True or trackPoints:
+                if pointNames is True:
                     extractedPointNames[location] = ptName
 
         totalPoints = i + 1
@@ -3030,8 +3024,6 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
         for idx in allEmptyFeatures:
             convertCols[idx] = float
             nonNumericFeatures.remove(idx)
-    if trackPoints:
-        pointNames = trackPoints
     if (keepPoints != 'all' and pointNames
             and pointNames is not True
             and len(retData) == totalPoints == len(keepPoints)):
-- 
2.43.0


From d5d039ff59b7424d9a0f049a001d16996c0bb560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:10 +0000
Subject: [PATCH 47/92] fix: keepFeatures with several unnamed features of a
 csv

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 669ac7f..e544693 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2660,7 +2660,7 @@ def _limitToKeptFeatures(keepFeatures, retFNames):
         # index values
         elif 0 <= ftID < len(retFNames):
             name = retFNames[ftID]
-            if name in keepNames:
+            if ftID in keepIndices:
                 _raiseKeepIndexNameConflict('feature', ftID, name)
             keepIndices.append(ftID)
             keepNames.append(name)
-- 
2.43.0


From 909c66514c63e48a12573749d4891662e8636ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 48/92] fix: csv columns starting with an empty field are typed
 by their values, empty fields become replaceMissingWith

---
 nimble/core/_createHelpers.py | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index e544693..73c7e92 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2274,10 +2274,12 @@ def createDataFromFile(
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
-            emptyIsMissing = '' in treatAsMissing
+            emptyIsMissing = (treatAsMissing is not None
+                              and '' in treatAsMissing)
             loaded = _loadcsvUsingPython(
                 toLoad, pointNames, featureNames, ignoreNonNumericalFeatures,
-                keepPoints, keepFeatures, inputSeparator, emptyIsMissing)
+                keepPoints, keepFeatures, inputSeparator, emptyIsMissing,
+                replaceMissingWith if emptyIsMissing else np.nan)
             selectSuccess = True
         elif extension == 'mtx':
             loaded = _loadmtxForAuto(toLoad, pointNames, featureNames,
@@ -2418,20 +2420,19 @@ def _csvColTypeTracking(row, convertCols, nonNumericFeatures,
                 elif colType is bool:
                     delKeys.append(idx)
 
-    if allEmptyFeatures:
-        for idx in allEmptyFeatures:
-            if row[idx] != '':
-                delKeys.append(idx)
-
-    if delKeys:
-        for key in delKeys:
-            if key in convertCols:
-                del convertCols[key]
-                nonNumericFeatures.add(key)
-            else:
-                allEmptyFeatures.remove(key)
+    for key in delKeys:
+        del convertCols[key]
+        nonNumericFeatures.add(key)
 
-def _colTypeConversion(row, convertCols, containsMissing):
+    # the first value that is not empty defines the initial type
+    for idx in [idx for idx in allEmptyFeatures if row[idx] != '']:
+        allEmptyFeatures.remove(idx)
+        colType = type(_intFloatBoolOrString(row[idx]))
+        if colType is not str:
+            convertCols[idx] = colType
+            nonNumericFeatures.remove(idx)
+
+def _colTypeConversion(row, convertCols, containsMissing, missingValue):
     """
     Converts values in each row that are in numeric/boolean columns.
 
@@ -2441,7 +2442,7 @@ def _colTypeConversion(row, convertCols, containsMissing):
     for idx, cType in convertCols.items():
         val = row[idx]
         if val == '':
-            row[idx] = np.nan
+            row[idx] = missingValue
             containsMissing.add(idx)
         elif cType is bool and val == 'False':
             # bool('False') would return True since val is still a string
@@ -2817,7 +2818,7 @@ def _loadhdf5ForAuto(ioStream, pointNames, featureNames):
 
 def _loadcsvUsingPython(ioStream, pointNames, featureNames,
                         ignoreNonNumericalFeatures, keepPoints, keepFeatures,
-                        inputSeparator, emptyIsMissing):
+                        inputSeparator, emptyIsMissing, missingValue):
     """
     Loads a csv file using a reader from python's csv module.
 
@@ -3065,10 +3066,12 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             expectedLength -= len(nonNumericFeatures)
 
         for row in retData:
-            _colTypeConversion(row, convertCols, containsMissing)
+            _colTypeConversion(row, convertCols, containsMissing,
+                               missingValue)
         # upcast features with missing data to float
+                     or object in convertTypes
         for idx in containsMissing:
-            convertCols[idx] = float
+            convertCols[idx] = float if isNum(missingValue) else object
         # if the data is all numeric use array o/w dataframe if possible
         convertTypes = set(convertCols.values())
         if (pd.nimbleAccessible()
-- 
2.43.0


From 9d076682998b4810ce4a821d2f9f64d2aa5b2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:30 +0000
Subject: [PATCH 49/92] fix: with rowsArePoints=False the names, the points and
 features to keep and the conversions are those of the transposed data

---
 nimble/core/_createHelpers.py | 54 ++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 73c7e92..03c6a42 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1512,10 +1512,15 @@ def initDataObject(
         if isinstance(rawData, nimble.core.data.BaseView):
             rawData = rawData.copy()
             copied = True
+        # the names of the points in the returned object
+        if rowsArePoints:
+            ptAxis, ftAxis = rawData.points, rawData.features
+        else:
+            ptAxis, ftAxis = rawData.features, rawData.points
         if pointNames == 'automatic' or pointNames is True:
-            pointNames = rawData.points._getNamesNoGeneration()
+            pointNames = ptAxis._getNamesNoGeneration()
         if featureNames == 'automatic' or featureNames is True:
-            featureNames = rawData.features._getNamesNoGeneration()
+            featureNames = ftAxis._getNamesNoGeneration()
         if returnType is None:
             returnType = rawData.getTypeString()
         rawData = rawData._data
@@ -1571,8 +1576,10 @@ def initDataObject(
         rawData = copy.deepcopy(rawData)
         copied = True
 
+    # everything until the object is transposed is in terms of the rows
     if not rowsArePoints:
         pointNames, featureNames = featureNames, pointNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
     if highDim:
         if not rowsArePoints:
             msg = 'rowsArePoints cannot be False. Features are ambiguous for '
@@ -1644,28 +1651,10 @@ def initDataObject(
     ret = initMethod(rawData, pointNames=usePNames, featureNames=useFNames,
                      name=name, paths=paths, reuseData=True, **kwargs)
 
-    def makeCmp(keepList, outerObj, axis):
-        if axis == 'point':
-            def indexGetter(x):
-                return outerObj.points.getIndex(x.points.getName(0))
-        else:
-            def indexGetter(x):
-                return outerObj.features.getIndex(x.features.getName(0))
-        positions = {}
-        for i, keep in enumerate(keepList):
-            positions[keep] = i
-
-        def retCmp(view1, view2):
-            idx1 = indexGetter(view1)
-            idx2 = indexGetter(view2)
-            if positions[idx1] < positions[idx2]:
-                return -1
-            if positions[idx1] > positions[idx2]:
-                return 1
-
-            return 0
-
-        return retCmp
+    if not rowsArePoints:
+        ret.transpose(useLog=False)
+        pointNames, featureNames = featureNames, pointNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
 
     # keep points and features if still needed
     if limitPoints:
@@ -1734,10 +1723,7 @@ def initDataObject(
             convertToType = convertToType[0]
 
     if convertToType is not None:
-        ret._data = elementTypeConvert(ret._data, convertToType)        
-        
-    if not rowsArePoints:
-        ret.transpose(useLog=False)
+        ret._data = elementTypeConvert(ret._data, convertToType)
 
     return ret
 
@@ -2271,6 +2257,11 @@ def createDataFromFile(
         if len(split) > 1 and split[1].lower() in supportedExtensions:
             extension = split[1].lower()
 
+    extracted = (pointNames is True, featureNames is True)
+    # the helpers below consider the rows of the file to be the points
+    if not rowsArePoints:
+        pointNames, featureNames = featureNames, pointNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
     with ioStream as toLoad:
         selectSuccess = False
         if extension == 'csv':
@@ -2303,7 +2294,6 @@ def createDataFromFile(
             relPath = path
             pathsToPass = (absPath, relPath)
 
-    extracted = (pointNames is True, featureNames is True)
     if selectSuccess:
         keepPoints = 'all'
         keepFeatures = 'all'
@@ -2314,6 +2304,10 @@ def createDataFromFile(
         if retFNames is None and isinstance(featureNames, (list, dict)):
             retFNames = featureNames
 
+    if not rowsArePoints:
+        retPNames, retFNames = retFNames, retPNames
+        keepPoints, keepFeatures = keepFeatures, keepPoints
+
     return initDataObject(
         retData, retPNames, retFNames, returnType, name, convertToType,
         keepPoints, keepFeatures, treatAsMissing=treatAsMissing,
@@ -3069,13 +3063,13 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
             _colTypeConversion(row, convertCols, containsMissing,
                                missingValue)
         # upcast features with missing data to float
-                     or object in convertTypes
         for idx in containsMissing:
             convertCols[idx] = float if isNum(missingValue) else object
         # if the data is all numeric use array o/w dataframe if possible
         convertTypes = set(convertCols.values())
         if (pd.nimbleAccessible()
                 and (len(convertCols) < expectedLength
+                     or object in convertTypes
                      or (len(convertTypes) > 1 and bool in convertTypes))):
             constructor = pd.DataFrame
         else:
-- 
2.43.0


From a03239fa5ad29700eef61c43b954252e576bbadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 50/92] fix: scores of classifiers trained with a single
 feature

---
 nimble/core/interfaces/_interface_helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nimble/core/interfaces/_interface_helpers.py b/nimble/core/interfaces/_interface_helpers.py
index 91ea0e7..8132523 100644
--- a/nimble/core/interfaces/_interface_helpers.py
+++ b/nimble/core/interfaces/_interface_helpers.py
@@ -164,8 +164,13 @@ def checkClassificationStrategy(interface, learnerName, trainArgs, scoreArgs,
     # labels as 0, 1, 2 ,3, 0, 1, 2, 3, ... so testing object is guaranteed to
     # have one of each label
     numPointsPerCluster = max(1, numPts // 4) * 2
+    # 4 clusters require at least 2 features, their sum separates them as well
     dataX, _, dataY = generateClusteredPoints(4, numPointsPerCluster,
-                                              numFts, addLabelNoise=False)
+                                              max(numFts, 2),
+                                              addLabelNoise=False)
+    if numFts < 2:
+        dataX = nimble.data([[sum(pt)] for pt in dataX.points],
+                            returnType=dataX.getTypeString(), useLog=False)
     reorder = []
     for i in range(numPointsPerCluster):
         for j in range(4):
-- 
2.43.0


From dca035c5ca827a2b7cda0b8631dcdbcdaec61a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 51/92] fix: bestScore of learners which name the features of
 their scores

---
 nimble/core/interfaces/universal_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index e0efe0b..6621f30 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1279,6 +1279,10 @@ class TrainedLearner(object):
         elif scoreMode == 'bestScore':
             scoreOrder = self._interface._getScoresOrder(self._backend)
             scoreOrder = list(scoreOrder)
+            # any names are from the learner, only the order is meaningful
+            for obj in (scores, labels):
+                obj.points.setNames(None, useLog=False)
+                obj.features.setNames(None, useLog=False)
             scores.features.append(labels, useLog=False)
             # labels at index -1, need value at score order index of the label
             scoreVector = scores.points.calculate(
-- 
2.43.0


From c59d10ac06324e50737f5bec8a24db274b2f7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 52/92] fix: pass arguments of custom learners to the methods
 that have them, refuse unknown ones in incrementalTrain

---
 nimble/core/interfaces/custom_learner.py | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index f4147a1..fcd5e9e 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -30,6 +30,7 @@ from nimble.exceptions import InvalidArgumentValue, ImproperObjectAction
 from nimble._utility import inheritDocstringsFactory
 from nimble._utility import inspectArguments
 from nimble._utility import dtypeConvert
+from nimble._utility import prettyListString
 from .universal_interface import UniversalInterface
 from .universal_interface import captureOutput
 
@@ -126,7 +127,11 @@ class CustomLearnerInterface(UniversalInterface):
 
     def _getScores(self, learnerName, learner, testX, newArguments,
                    storedArguments, customDict):
-        return learner.getScores(testX)
+        # ignore self and testX params
+        backendArgs = inspectArguments(learner.getScores)[0][2:]
+        scoreArgs = self._getMethodArguments(backendArgs, newArguments,
+                                             storedArguments)
+        return learner.getScores(testX, **scoreArgs)
 
     def _getScoresOrder(self, learner):
         if learner.learnerType == 'classification':
@@ -158,13 +163,27 @@ class CustomLearnerInterface(UniversalInterface):
             labels = dtypeConvert(trainY.copy(to='numpyarray'))
             ret.labelList = np.unique(labels)
 
+        # arguments only used by apply are not for train
+        trainParams = ret.getTrainParameters()
+        trainArgs = {arg: value for arg, value in arguments.items()
+                     if arg in trainParams}
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            ret.train(trainX, trainY, **arguments)
+            ret.train(trainX, trainY, **trainArgs)
 
         return ret
 
     def _incrementalTrainer(self, learnerName, learner, trainX, trainY,
                             arguments, randomSeed, customDict):
+        # only self, trainX and trainY for learners without arguments
+        incParams = inspectArguments(learner.incrementalTrain)[0][3:]
+        knownParams = learner.getLearnerParameterNames() + incParams
+        extra = [arg for arg in arguments if arg not in knownParams]
+        if extra:
+            msg = "EXTRA LEARNER PARAMETER! The following parameter names "
+            msg += "were not matched: " + prettyListString(extra, useAnd=True)
+            raise InvalidArgumentValue(msg)
+        incArgs = {arg: value for arg, value in arguments.items()
+                   if arg in incParams}
         if learner.__class__.learnerType == 'classification':
             flattenedY = dtypeConvert(trainY.copy(to='numpyarray').flatten())
             if learner.labelList is None: # no previous training
@@ -172,7 +191,7 @@ class CustomLearnerInterface(UniversalInterface):
             learner.labelList = np.union1d(learner.labelList, flattenedY)
 
         with nimble.random.alternateControl(randomSeed, useLog=False):
-            learner.incrementalTrain(trainX, trainY, **arguments)
+            learner.incrementalTrain(trainX, trainY, **incArgs)
 
         return learner
 
-- 
2.43.0


From f3cb29f8ab5017292f9973fb754d79af6edefd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 53/92] fix: a failing retrain left the learner half updated, a
 second retrain lost earlier arguments

---
 nimble/core/interfaces/universal_interface.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 6621f30..b778ed4 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1445,11 +1445,9 @@ class TrainedLearner(object):
             has2dOutput = len(outputData.features) > 1
         elif isinstance(outputData, (list, tuple)):
             has2dOutput = len(outputData) > 1
-        self._randomSeed = self._interface._getValidSeed(randomSeed)
+        randomSeed = self._interface._getValidSeed(randomSeed)
 
         merged = mergeArguments(arguments, kwarguments)
-        self._interface._validateLearnerArgumentValues(self.learnerName,
-                                                       merged)
         for arg, value in merged.items():
             if isinstance(value, nimble.Tune):
                 msg = "Cannot provide a hyperparameter tuning arguments "
@@ -1457,8 +1455,9 @@ class TrainedLearner(object):
                 msg += "If wanting to perform hyperparameter tuning, use "
                 msg += "nimble.train()"
                 raise InvalidArgumentValue(msg)
-            self._arguments[arg] = value
-            self._transformedArguments[arg] = value
+        # previously set arguments remain, unless overridden
+        newArguments = mergeArguments(self._arguments, {})
+        newArguments.update(merged)
 
         # separate training data / labels if needed
         if isinstance(trainY, (str, int, np.integer)):
@@ -1466,16 +1465,19 @@ class TrainedLearner(object):
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
         trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, self._transformedArguments,
-            self.randomSeed)
+            self.learnerName, trainX, trainY, newArguments, randomSeed)
 
         newBackend = trainedBackend[0]
         transformedInputs = trainedBackend[1]
         customDict = trainedBackend[2]
 
         self._backend = newBackend
+        self._randomSeed = randomSeed
         self._trainXShape = trainX.shape
-        self._arguments = merged
+        self._trainYNames = None
+        if trainY is not None:
+            self._trainYNames = trainY.features._getNamesNoGeneration()
+        self._arguments = newArguments
         self._transformedArguments = transformedInputs[3]
         self._customDict = customDict
         self._has2dOutput = has2dOutput
-- 
2.43.0


From 5d4c642089af8ea810222d2a167cde8796ce84eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 54/92] fix: incrementalTrain with label identifiers, arguments
 of a failing call are not kept

---
 nimble/core/interfaces/universal_interface.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index b778ed4..ab787c2 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1519,11 +1519,16 @@ class TrainedLearner(object):
         validateLearningArguments(trainX, trainY)
         # without a seed, still controlled by Nimble's randomness
         randomSeed = self._interface._getValidSeed(randomSeed)
+        newArguments = mergeArguments(self._arguments, {})
         if arguments is not None:
-            self.arguments.update(arguments)
+            newArguments.update(arguments)
+        # separate training data / labels if needed
+        if isinstance(trainY, (str, int, np.integer)):
+            trainX = trainX.copy()
+            trainY = trainX.features.extract(toExtract=trainY, useLog=False)
         transformed = self._interface._inputTransformation(
             self.learnerName, trainX, trainY, None, self._randomSeed,
-            self.arguments, self._customDict)
+            newArguments, self._customDict)
         transformedTrainX = transformed[0]
         transformedTrainY = transformed[1]
         transformedArguments = transformed[3]
@@ -1531,6 +1536,8 @@ class TrainedLearner(object):
             self.learnerName, self._backend, transformedTrainX,
             transformedTrainY, transformedArguments, randomSeed,
             self._customDict)
+        self._arguments = newArguments
+        self._transformedArguments = transformedArguments
 
         handleLogging(useLog, 'TLrun', self, 'incrementalTrain',
                       self.arguments, trainX, trainY,
-- 
2.43.0


From 47c20d25bd88ab375361193bae1db2ba8a34f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 55/92] fix: custom learners which inherit from other classes
 too were taken to override methods they do not

---
 nimble/core/interfaces/custom_learner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/custom_learner.py b/nimble/core/interfaces/custom_learner.py
index fcd5e9e..eab3780 100644
--- a/nimble/core/interfaces/custom_learner.py
+++ b/nimble/core/interfaces/custom_learner.py
@@ -397,8 +397,10 @@ def validateCustomLearnerSubclass(check):
 
     def overridden(func):
         # Determine if a function was redefined outside of its CustomLearner
-        # definition. [:-2] ignores CustomLearner and object
-        for checkBase in inspect.getmro(check)[:-2]:
+        # definition. Ignores CustomLearner and its bases
+        for checkBase in inspect.getmro(check):
+            if checkBase in inspect.getmro(CustomLearner):
+                continue
             if func in checkBase.__dict__:
                 return True
         return False
-- 
2.43.0


From faa3f5c83c02f4f0e513390d17338cc189d854f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 56/92] fix: Tune objects of decreasing ranges, single values,
 products and values with 0

---
 nimble/core/tune.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index c5b3eb9..b83b63b 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -1408,7 +1408,7 @@ class Tune:
         if isinstance(values, range):
             self._values = None
             self._start = values.start
-            self._end = values.stop - 1
+            self._end = values.stop - (1 if values.step > 0 else -1)
             self._change = values.step
 
         self._args = {'values': values, 'start': start, 'end': end,
@@ -1434,9 +1434,13 @@ class Tune:
 
             start = self._start
             change = self._change
+            if not linear and min(start, self._end) <= 0:
+                # the end cannot be reached by multiplication
+                msg = "start and end must be greater than 0"
+                raise InvalidArgumentValue(msg)
             self._values = []
             if self._start < self._end:
-                if not linear and change < 1:
+                if not linear and change <= 1:
                     msg = "change must be greater than 1"
                     raise InvalidArgumentValue(msg)
                 if linear and change <= 0:
@@ -1451,13 +1455,16 @@ class Tune:
                     msg = "change must be less than 0"
                     raise InvalidArgumentValue(msg)
                 comp = operator.ge
+            else: # a single value
+                self._values.append(start)
+                comp = operator.ne
 
             curr = self._start
             while comp(curr, self._end):
                 self._values.append(curr)
                 curr = op(curr, self._change)
                 # rounding errors can prevent end from being included
-                if linear and round(curr, 12) == self._end:
+                if round(curr, 12) == self._end:
                     curr = self._end
 
         else:
@@ -1475,7 +1482,7 @@ class Tune:
                         self._end = sort[-1]
                         self._change = difLin
                         self._changeType = 'add'
-                    elif sort[0]:
+                    elif 0 not in sort:
                         difExp = sort[1] / sort[0]
                         expDiffs = (sort[i + 1] / sort[i] for i
                                     in range(len(sort) - 1))
-- 
2.43.0


From 2d12c75ca80b58603b4dbe23835edcc0dde3b7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 57/92] fix: consecutive selection ended early or skipped
 values, and could not tune learners with list arguments

---
 nimble/core/tune.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index b83b63b..a995925 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -838,7 +838,7 @@ class Consecutive(ArgumentSelector):
         self._bestPerformance = None
         self._bestArgs = None
         self._currArgs = None
-        self._tried = set()
+        self._tried = [] # values may not be hashable
 
     def __next__(self):
         if self._currentLoop > self.loops:
@@ -865,32 +865,31 @@ class Consecutive(ArgumentSelector):
             raise StopIteration
         else:
             target = self.order[self._target]
-            try:
-                self._currArgs[target] = next(self._tune[target])
-            except StopIteration:
-                if self._target + 1 < len(self.order): # next argument
-                    self._currArgs[target] = self._bestArgs[target]
-                    self._target += 1
-                    target = self.order[self._target]
+            # arguments may not have any (other) values left to try
+            while True:
+                try:
                     self._currArgs[target] = next(self._tune[target])
-                # new loop
-                elif self._currentLoop + 1 > self.loops:
-                    raise
-                else:
-                    self._currentLoop += 1
-                    self._target = 0
+                    break
+                except StopIteration:
+                    if self._target + 1 < len(self.order): # next argument
+                        self._currArgs[target] = self._bestArgs[target]
+                        self._target += 1
+                    elif self._currentLoop + 1 > self.loops:
+                        raise
+                    else:
+                        self._currentLoop += 1
+                        self._target = 0
+                        self._currArgs = self._bestArgs.copy()
+                        for key in self.order:
+                            remaining = [val for val in self.arguments[key]
+                                         if val != self._currArgs[key]]
+                            self._tune[key] = iter(remaining)
                     target = self.order[self._target]
-                    self._currArgs = self._bestArgs.copy()
-                    for key in self.order:
-                        iterator = iter(val for val in self.arguments[key]
-                                        if val != self._currArgs[key])
-                        self._tune[key] = iterator
-                    self._currArgs[target] = next(self._tune[target])
         # go to next if currArgs were already tried in a previous loop
-        if tuple(self._currArgs.items()) in self._tried:
+        if self._currArgs in self._tried:
             return self.__next__()
         # save combo to avoid future loops from repeating combo
-        self._tried.add(tuple(self._currArgs.items()))
+        self._tried.append(self._currArgs.copy())
         performance = self.validator.validate(self._currArgs)
         if (self._bestPerformance is None
                 or self.validator._isBest(performance, self._bestPerformance)):
-- 
2.43.0


From e963b9e6f1bbedd7bd33c69d2765155a42fd02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 58/92] fix: tuning with validation data named the data of the
 user

---
 nimble/core/tune.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index a995925..c465624 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -508,9 +508,12 @@ class HoldoutValidator(Validator):
             msg += "points"
             raise InvalidArgumentValueCombination(msg)
 
+        # names are for the log, do not modify the objects of the user
         if validateX.name is None:
+            validateX = validateX.copy()
             validateX.name = "validateX"
         if validateY.name is None:
+            validateY = validateY.copy()
             validateY.name = "validateY"
 
         self.validateX = validateX
-- 
2.43.0


From d14f3f6fe11a22d0641e2d18ec9093bc5d3fc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 59/92] fix: iterative selection failed when training, moved to
 the worse neighbour and tested trained learners that were not updated

---
 nimble/core/tune.py | 47 ++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/nimble/core/tune.py b/nimble/core/tune.py
index c465624..af3cf9c 100644
--- a/nimble/core/tune.py
+++ b/nimble/core/tune.py
@@ -584,7 +584,6 @@ class HoldoutData(HoldoutValidator):
         self._trainedLearnerBase = None
         self._incremental = None if allowIncremental else False
         self._updater = None
-        self._lastArguments = {}
         self.bestTrainedLearner = None
 
     def validate(self, arguments=None, record=True, **kwarguments):
@@ -598,13 +597,19 @@ class HoldoutData(HoldoutValidator):
             self._arguments.append(arguments)
             if self._best is None or self._isBest(performance, self._best[0]):
                 self._best = (performance, arguments)
-                self.bestTrainedLearner = copy.copy(self._trainedLearnerBase)
+                self.bestTrainedLearner = self._copyTrainedLearner()
 
         return performance
 
+    def _copyTrainedLearner(self):
+        ret = copy.copy(self._trainedLearnerBase)
+        if self._incremental is not False: # could modify the same backend
+            ret._backend = copy.deepcopy(ret._backend)
+        return ret
+
     def _updateTrainedLearner(self, trial):
         if trial:
-            self._trainedLearner = copy.copy(self._trainedLearnerBase)
+            self._trainedLearner = self._copyTrainedLearner()
         else:
             self._trainedLearner = self._trainedLearnerBase
 
@@ -614,29 +619,29 @@ class HoldoutData(HoldoutValidator):
                 self.learnerName, self.X, self.Y, arguments,
                 randomSeed=self.randomSeed, useLog=False)
             self._trainedLearner = self._trainedLearnerBase
-            self._lastArguments = arguments
         elif self._updater is None:
             if self._incremental is None:
                 try:
                     self._trainedLearner.incrementalTrain(
                         self.X, self.Y, arguments,
                         randomSeed=self.randomSeed, useLog=False)
-                    self._updater = self._trainedLearner.incrementalTrain
+                    self._updater = 'incrementalTrain'
                     self._incremental = True
-                except TypeError:
+                except (TypeError, ImproperObjectAction):
                     self._incremental = False
             if not self._incremental:
-                self._updater = self._trainedLearner.retrain
+                self._updater = 'retrain'
                 # only retrain if arguments have changed
-                if arguments != self._lastArguments:
+                if arguments != self._trainedLearner.arguments:
                     self._trainedLearner.retrain(self.X, self.Y, arguments,
                                                  randomSeed=self.randomSeed,
                                                  useLog=False)
-            self._lastArguments = arguments
-        elif self._incremental or arguments != self._lastArguments:
-            self._updater(self.X, self.Y, arguments,
-                          randomSeed=self.randomSeed, useLog=False)
-            self._lastArguments = arguments
+        elif (self._incremental
+              or arguments != self._trainedLearner.arguments):
+            # the trained learner may not be the one of the previous call
+            update = getattr(self._trainedLearner, self._updater)
+            update(self.X, self.Y, arguments, randomSeed=self.randomSeed,
+                   useLog=False)
 
         performance = self._trainedLearner.test(
             self.performanceFunction, self.validateX, self.validateY,
@@ -1121,10 +1126,10 @@ class Iterative(ArgumentSelector):
                 highBest = False
             if lowBest and highBest: # select better of the two
                 if self.validator._isBest(perfHigh, perfLow):
-                    best[name] = argLow
+                    best[name] = argHigh
                     self._tuneIdx[name] += 1
                 else:
-                    best[name] = argHigh
+                    best[name] = argLow
                     self._tuneIdx[name] -= 1
             elif lowBest:
                 best[name] = argLow
@@ -1139,7 +1144,7 @@ class Iterative(ArgumentSelector):
             raise StopIteration
         if best:
             self._currArgs.update(best)
-            self.validator._updateTrainedLearner(trial=True)
+            self.validator._updateTrainedLearner(trial=False)
             performance = self.validator.validate(self._currArgs)
             if self.validator._isBest(performance, self._bestPerf):
                 self._bestPerf = performance
@@ -1828,11 +1833,5 @@ class Tuning:
         """
         A new Tuner with attributes based on the latest tuning.
         """
-        ret = Tuning(selection=self.selection, validation=self.validation,
-                     performanceFunction=self.performanceFunction,
-                     **self._selectorArgs, **self._validatorArgs)
-        ret.validator = self.validator
-        ret.arguments = self.arguments
-        ret._sortedResults = self._sortedResults
-
-        return ret
+        # each tune call replaces the results, does not modify them
+        return copy.copy(self)
-- 
2.43.0


From 61e69421ee5e0d381ddc483fac03e7bf78e6b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 60/92] fix: OneVsOne with labels taken from the data trained
 later pairs on scrambled features

---
 nimble/core/interfaces/universal_interface.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index ab787c2..20aae30 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -244,10 +244,12 @@ class UniversalInterface(metaclass=abc.ABCMeta):
             if multiClassStrategy == 'OneVsOne':
                 # and trialResult != 'OneVsOne': ?
                 # want data and labels together in one object for this method
+                # labels are the last feature, as when appended again below
                 trainX = trainX.copy()
-                if isinstance(trainY, nimble.core.data.Base):
-                    trainX.features.append(trainY, useLog=False)
-                    trainY = len(trainX.features) - 1
+                if not isinstance(trainY, nimble.core.data.Base):
+                    trainY = trainX.features.extract(trainY, useLog=False)
+                trainX.features.append(trainY, useLog=False)
+                trainY = len(trainX.features) - 1
 
                 # Get set of unique class labels, then generate list of all
                 # 2-combinations of class labels
-- 
2.43.0


From 0c898302a4ad9224865f56d789df7c156f4fe421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 61/92] fix: names of multi class strategies were accepted in
 any case but compared exactly

---
 nimble/core/interfaces/universal_interface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index 20aae30..a69d441 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -196,6 +196,12 @@ class UniversalInterface(metaclass=abc.ABCMeta):
         self._confirmValidLearner(learnerName)
         randomSeed = self._getValidSeed(randomSeed)
 
+        # the names of the strategies are not case sensitive
+        strategies = {'onevsall': 'OneVsAll', 'onevsone': 'OneVsOne'}
+        if multiClassStrategy is not None:
+            multiClassStrategy = strategies.get(multiClassStrategy.lower(),
+                                                'default')
+
         if multiClassStrategy != 'default':
             # TODO reevaluate use of checkClassificationStrategy, the if
             # statements below expect a string output but it looks to output
-- 
2.43.0


From f683d1e467a516fa8d26d9953a5fac095cd0cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 62/92] fix: retrain of learners for many classes left their
 predictions as they were

---
 nimble/core/interfaces/universal_interface.py | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index a69d441..c9a42c3 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1472,8 +1472,8 @@ class TrainedLearner(object):
             trainX = trainX.copy()
             trainY = trainX.features.extract(toExtract=trainY, useLog=False)
 
-        trainedBackend = self._interface._trainBackend(
-            self.learnerName, trainX, trainY, newArguments, randomSeed)
+        trainedBackend = self._retrainBackend(trainX, trainY, newArguments,
+                                              randomSeed)
 
         newBackend = trainedBackend[0]
         transformedInputs = trainedBackend[1]
@@ -1494,6 +1494,10 @@ class TrainedLearner(object):
         handleLogging(useLog, 'TLrun', self, 'retrain', self.arguments, trainX,
                       trainY, randomSeed=self.randomSeed)
 
+    def _retrainBackend(self, trainX, trainY, arguments, randomSeed):
+        return self._interface._trainBackend(
+            self.learnerName, trainX, trainY, arguments, randomSeed)
+
     @captureOutput
     def incrementalTrain(self, trainX, trainY=None, arguments=None,
                          randomSeed=None, *, useLog=None):
@@ -1753,6 +1757,19 @@ class TrainedLearners(TrainedLearner):
                          customDict, backend, interfaceObject, has2dOutput,
                          tuningResults, trainXShape, trainYNames, randomSeed)
 
+    def _retrainBackend(self, trainX, trainY, arguments, randomSeed):
+        # the learners trained for the labels need to be trained again, the
+        # attributes are those of the first, as when instantiated
+        retrained = self._interface.train(
+            self.learnerName, trainX, trainY, arguments, self.method,
+            randomSeed)
+        self._trainedLearnersList = retrained._trainedLearnersList
+        self._labelSet = retrained._labelSet
+
+        return (retrained._backend,
+                (None, None, None, retrained._transformedArguments),
+                retrained._customDict)
+
     @captureOutput
     def apply(self, testX, arguments=None, scoreMode=None, *, useLog=None,
               **kwarguments):
-- 
2.43.0


From 873386573ecdb6715bc0ad5bc98f9b920c340a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 63/92] fix: scores of OneVsOne failed for labels that are
 strings

---
 nimble/core/interfaces/universal_interface.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nimble/core/interfaces/universal_interface.py b/nimble/core/interfaces/universal_interface.py
index c9a42c3..17e7cbd 100644
--- a/nimble/core/interfaces/universal_interface.py
+++ b/nimble/core/interfaces/universal_interface.py
@@ -1965,7 +1965,12 @@ class TrainedLearners(TrainedLearner):
                     returnType="Matrix", useLog=False)
                 return resultsContainer
             if scoreMode.lower() == 'allScores'.lower():
-                colHeaders = sorted([str(float(i)) for i in self._labelSet])
+                def labelName(label):
+                    if isinstance(label, str):
+                        return label
+                    return str(float(label))
+
+                colHeaders = sorted([labelName(i) for i in self._labelSet])
                 colIndices = list(range(len(colHeaders)))
                 labelIndexDict = {v: k for k, v in zip(colIndices, colHeaders)}
                 predictionMatrix = rawPredictions.copy(to="python list")
@@ -1974,7 +1979,7 @@ class TrainedLearners(TrainedLearner):
                     finalRow = [0] * len(colHeaders)
                     scores = countWins(row)
                     for label, score in scores.items():
-                        finalIndex = labelIndexDict[str(float(label))]
+                        finalIndex = labelIndexDict[labelName(label)]
                         finalRow[finalIndex] = score
                     resultsContainer.append(finalRow)
 
-- 
2.43.0


From b2852d918867e3c111e7fbc9d050bda77473aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 64/92] fix: KNNClassifier depended on later changes of the
 training objects

---
 nimble/learners/knn_classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nimble/learners/knn_classification.py b/nimble/learners/knn_classification.py
index bb4b428..de57131 100644
--- a/nimble/learners/knn_classification.py
+++ b/nimble/learners/knn_classification.py
@@ -40,8 +40,9 @@ class KNNClassifier(CustomLearner):
 
     def train(self, trainX, trainY, k=5):
         self.k = k
-        self._trainX = trainX
-        self._trainY = trainY
+        # copies, because the objects may be modified after training
+        self._trainX = trainX.copy()
+        self._trainY = trainY.copy()
 
     def apply(self, testX):
         dists = self._getDistanceMatrix(testX)
-- 
2.43.0


From 544da09be241dc142b204bb59fb82569b4feb1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 65/92] fix: filling with a learner refused matched elements
 given by an object with other names

---
 nimble/core/learn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index 949f571..da2fa0e 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -652,7 +652,9 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
             checkNans = False
     if checkNans:
         nanLocs = trainX.matchingElements(match.missing, useLog=False)
-        if matchMatrix | nanLocs != matchMatrix:
+        if any(isNan and not matched for isNan, matched
+               in zip(nanLocs.iterateElements(),
+                      matchMatrix.iterateElements())):
             msg = "filling requires all unmatched elements to be non-nan"
             raise ImproperObjectAction(msg)
 
-- 
2.43.0


From 187bf53cc5ec24f8fd56f3dd8ff97e4196024215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:20 +0000
Subject: [PATCH 66/92] fix: filling with a learner misplaced values when the
 learner drops features

---
 nimble/core/learn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nimble/core/learn.py b/nimble/core/learn.py
index da2fa0e..4ad83f8 100644
--- a/nimble/core/learn.py
+++ b/nimble/core/learn.py
@@ -662,6 +662,10 @@ def fillMatching(learnerName, matchingElements, trainX, arguments=None,
     toFill = trainX.copy()
     toFill.features.fillMatching(np.nan, matchMatrix, useLog=False)
     filled = trainAndApply(learnerName, toFill, arguments=merged, useLog=False)
+    if filled.shape != trainX.shape:
+        msg = 'The learner did not provide a value for each element. This can '
+        msg += 'occur when all elements of a feature are to be filled.'
+        raise ImproperObjectAction(msg)
 
     def transformer(elem, i, j):
         if matchMatrix[i, j]:
-- 
2.43.0


From 846514610eea3aee01a0b7f8a8998949fdf43b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 67/92] fix: reading a file with a given separator changed the
 csv module's excel dialect for the whole process

---
 nimble/core/_createHelpers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 03c6a42..418051c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2558,8 +2558,12 @@ def _detectDialectFromSeparator(ioStream, inputSeparator):
     if inputSeparator == '\t':
         dialect = csv.excel_tab
     else:
-        dialect = csv.excel
-        dialect.delimiter = inputSeparator
+        # csv.excel itself must not change, it is used outside of nimble too
+        class dialect(csv.excel):
+            """
+            The excel dialect with the separator of this file.
+            """
+            delimiter = inputSeparator
 
     # reset everything to make the loop easier
     ioStream.seek(startPosition)
-- 
2.43.0


From ee0bf2216568e4d2758a834788e7c7da0ab61272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 68/92] fix: reading csv dropped blank lines that are inside a
 quoted value

---
 nimble/core/_createHelpers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 418051c..5a58e5e 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2880,9 +2880,7 @@ def _loadcsvUsingPython(ioStream, pointNames, featureNames,
     # how many are skipped
     skippedLines = _advancePastComments(ioStream)
     # remake the file iterator to ignore empty lines
-    filtered = filter(lambda row: row[0] != '\n', ioStream)
-    # send that line iterator to the csv reader
-    lineReader = csv.reader(filtered, dialect)
+    lineReader = filter(None, csv.reader(ioStream, dialect))
 
     firstRowLength = None
     if featureNames is True:
-- 
2.43.0


From 226e9ee78b72111562821c342b03da931609bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 69/92] fix: hdf5 files reordered the points, gained a
 dimension and lost unnamed points

---
 nimble/core/data/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 063508a..5565bbd 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -1927,15 +1927,25 @@ class Base(ABC):
             raise PackageException(msg)
         if includePointNames:
             pnames = self.points.getNames()
+            # each point is identified by its name
+            if any(name in (None, '', '.') or '/' in name for name in pnames):
+                msg = 'hdf files require a name for each point and the names '
+                msg += 'cannot contain "/". Use includeNames=False to write '
+                msg += 'the data without names'
+                raise ImproperObjectAction(msg)
             userblockSize = 512
         else:
             pnames = [str(i) for i in range(len(self.points))]
             userblockSize = 0
-        with h5py.File(outPath, 'w', userblock_size=userblockSize) as hdf:
+        # track_order or the points will be loaded ordered by their name
+        with h5py.File(outPath, 'w', userblock_size=userblockSize,
+                       track_order=True) as hdf:
             for name, point in zip(pnames, self.points):
                 point = point.copy() # views cannot be converted
                 point._convertToNumericTypes()
                 asArray = point.copy('numpy array')
+                if len(self._dims) == 2:
+                    asArray = asArray[0]
                 _ = hdf.create_dataset(name, data=asArray)
                 hdf.flush()
         if includePointNames:
-- 
2.43.0


From 7a4f26d5146097f354292efab05f0f9027bf9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 70/92] fix: saving to csv failed without names and broke names
 with quotes or line breaks

---
 nimble/core/data/_dataHelpers.py | 8 +++++++-
 nimble/core/data/base.py         | 4 ++--
 nimble/core/data/list.py         | 9 ++++++---
 nimble/core/data/matrix.py       | 3 ++-
 nimble/core/data/sparse.py       | 6 ++++--
 5 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 66dd529..16fc27f 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -827,12 +827,18 @@ def csvCommaFormat(name):
     """
     Prevent the name from being interpreted as two different csv values.
     """
-    if isinstance(name, str) and ',' in name:
+    if isinstance(name, str) and any(c in name for c in ',"\n\r'):
         if '"' in name:
             name = re.sub(r'"', '""', name)
         name = f'"{name}"'
     return name
 
+def csvNames(names):
+    """
+    The names as the strings to write to a file, empty if there is none.
+    """
+    return ['' if name is None else csvCommaFormat(name) for name in names]
+
 def limitedTo2D(method):
     """
     Wrapper for operations only allowed in two-dimensions.
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5565bbd..47e0ae1 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -53,7 +53,7 @@ from ._dataHelpers import formatIfNeeded, validateInputString
 from ._dataHelpers import constructIndicesList
 from ._dataHelpers import createListOfDict, createDictOfList
 from ._dataHelpers import createDataNoValidation
-from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import validateElementFunction, wrapMatchFunctionFactory
 from ._dataHelpers import applyElementFunction
 from ._dataHelpers import ElementIterator1D
@@ -1914,7 +1914,7 @@ class Base(ABC):
 
 
     def _writeFeatureNamesToCSV(self, openFile, includePointNames):
-        fnames = list(map(csvCommaFormat, self.features.getNames()))
+        fnames = csvNames(self.features.getNames())
         if includePointNames:
             fnames.insert(0, 'pointNames')
         fnamesLine = ','.join(fnames)
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index ed241b3..f26bbab 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -36,6 +36,7 @@ from .listAxis import ListPoints, ListPointsView
 from .listAxis import ListFeatures, ListFeaturesView
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 
@@ -209,11 +210,13 @@ class List(Base):
             if includeFeatureNames:
                 self._writeFeatureNamesToCSV(outFile, includePointNames)
 
-            for point in self.points:
+            if includePointNames:
+                pnames = csvNames(self.points.getNames())
+
+            for i, point in enumerate(self.points):
                 first = True
                 if includePointNames:
-                    currPname = csvCommaFormat(point.points.getName(0))
-                    outFile.write(currPname)
+                    outFile.write(pnames[i])
                     first = False
 
                 for value in point:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 5fd6a16..2cedbbb 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -38,6 +38,7 @@ from .matrixAxis import MatrixFeatures, MatrixFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -144,7 +145,7 @@ class Matrix(Base):
             else:
                 viewData = self._data.view()
             if includePointNames:
-                pnames = list(map(csvCommaFormat, self.points.getNames()))
+                pnames = csvNames(self.points.getNames())
                 pnames = numpy2DArray(pnames).transpose()
                 viewData = np.concatenate((pnames, viewData), 1)
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index e028082..b2de509 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -43,6 +43,7 @@ from ._dataHelpers import allDataIdentical
 from ._dataHelpers import applyElementFunction
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
+from ._dataHelpers import csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -291,10 +292,11 @@ class Sparse(Base):
             pmax = len(self._data.data)
             # write zero to file as same type as this data
             zero = self._data.data.dtype.type(0)
+            if includePointNames:
+                pnames = csvNames(self.points.getNames())
             for i in range(len(self.points)):
                 if includePointNames:
-                    currPname = csvCommaFormat(self.points.getName(i))
-                    outFile.write(currPname)
+                    outFile.write(pnames[i])
                     outFile.write(',')
                 for j in range(len(self.features)):
                     if (pointer < pmax and i == self._data.row[pointer]
-- 
2.43.0


From b6538adeeca755f35b1a3c4855a1d79093154866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:59 +0000
Subject: [PATCH 71/92] fix: mtx files were wrong without names, with names
 containing commas and for values of List

---
 nimble/core/_createHelpers.py |  9 +++++----
 nimble/core/data/dataframe.py |  5 +++--
 nimble/core/data/list.py      | 21 ++++++++++-----------
 nimble/core/data/matrix.py    | 13 ++++---------
 nimble/core/data/sparse.py    | 15 ++++-----------
 5 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 5a58e5e..77810b5 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2703,13 +2703,14 @@ def _loadmtxForAuto(ioStream, pointNames, featureNames, encoding):
             scrubbedLine = currLine[2:]
             # strip newline from end of line
             scrubbedLine = scrubbedLine.rstrip()
-            names = list(map(lambda s: s.decode(encoding),
-                             scrubbedLine.split(b',')))
+            # names containing commas are quoted, as when saved to csv
+            names = next(csv.reader([scrubbedLine.decode(encoding)]), [])
+            names = [name if name else None for name in names]
             if not seenPNames:
-                retPNames = names if names != [''] else None
+                retPNames = names if names else None
                 seenPNames = True
             else:
-                retFNames = names if names != [''] else None
+                retFNames = names if names else None
 
     ioStream.seek(startPosition)
     data = scipy.io.mmread(ioStream)
diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index 8e03dd4..d22e442 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -38,6 +38,7 @@ from .dataframeAxis import DataFramePoints, DataFramePointsView
 from .dataframeAxis import DataFrameFeatures, DataFrameFeaturesView
 from ._dataHelpers import allDataIdentical
 from ._dataHelpers import createDataNoValidation
+from ._dataHelpers import csvNames
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, isValid2DObject
@@ -187,9 +188,9 @@ class DataFrame(Base):
 
         comment = '#'
         if includePointNames:
-            comment += ','.join(self.points.getNames())
+            comment += ','.join(csvNames(self.points.getNames()))
         if includeFeatureNames:
-            comment += '\n#' + ','.join(self.features.getNames())
+            comment += '\n#' + ','.join(csvNames(self.features.getNames()))
         scipy.io.mmwrite(outPath, self._data.astype(np.float64),
                          comment=comment)
 
diff --git a/nimble/core/data/list.py b/nimble/core/data/list.py
index f26bbab..857b769 100644
--- a/nimble/core/data/list.py
+++ b/nimble/core/data/list.py
@@ -232,17 +232,18 @@ class List(Base):
         Function to write the data in this object to a matrix market
         file at the designated path.
         """
+        # the format only allows for numbers
+        values = []
+        for j in range(len(self.features)):
+            for i in range(len(self.points)):
+                value = self._data[i][j]
+                values.append(np.nan if value is None else float(value))
+
         with open(outPath, 'w', encoding='utf-8') as outFile:
             outFile.write("%%MatrixMarket matrix array real general\n")
 
             def writeNames(nameList):
-                for i, n in enumerate(nameList):
-                    if i == 0:
-                        outFile.write('%#')
-                    else:
-                        outFile.write(',')
-                    outFile.write(n)
-                outFile.write('\n')
+                outFile.write('%#' + ','.join(csvNames(nameList)) + '\n')
 
             if includePointNames:
                 writeNames(self.points.getNames())
@@ -255,10 +256,8 @@ class List(Base):
 
             outFile.write(f"{len(self.points)} {len(self.features)}\n")
 
-            for j in range(len(self.features)):
-                for i in range(len(self.points)):
-                    value = self._data[i][j]
-                    outFile.write(str(value) + '\n')
+            for value in values:
+                outFile.write(str(value) + '\n')
 
     def _referenceFrom_implementation(self, other, kwargs):
         kwargs.setdefault('checkAll', False)
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 2cedbbb..5c8bdd9 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -157,22 +157,17 @@ class Matrix(Base):
             msg = "scipy is not available"
             raise PackageException(msg)
 
-        def makeNameString(count, namesGetter):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesGetter(i)
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
+        def makeNameString(names):
+            return '#' + ','.join(csvNames(names))
 
         header = ''
         if includePointNames:
-            header = makeNameString(len(self.points), self.points.getName)
+            header = makeNameString(self.points.getNames())
             header += '\n'
         else:
             header += '#\n'
         if includeFeatureNames:
-            header += makeNameString(len(self.features), self.features.getName)
+            header += makeNameString(self.features.getNames())
         else:
             header += '#\n'
 
diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index b2de509..b9fc30d 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -313,24 +313,17 @@ class Sparse(Base):
 
     def _saveMTX_implementation(self, outPath, includePointNames,
                                 includeFeatureNames):
-        def makeNameString(count, namesItoN):
-            nameString = "#"
-            for i in range(count):
-                nameString += namesItoN[i]
-                if not i == count - 1:
-                    nameString += ','
-            return nameString
+        def makeNameString(names):
+            return '#' + ','.join(csvNames(names))
 
         header = ''
         if includePointNames:
-            pNames = self.points.getNames()
-            header = makeNameString(len(self.points), pNames)
+            header = makeNameString(self.points.getNames())
             header += '\n'
         else:
             header += '#\n'
         if includeFeatureNames:
-            fNames = self.features.getNames()
-            header += makeNameString(len(self.features), fNames)
+            header += makeNameString(self.features.getNames())
             header += '\n'
         else:
             header += '#\n'
-- 
2.43.0


From 4e859975f8d4d69a2684b96121da0209ef81f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 72/92] fix: copying high dimension data to a python list
 turned numbers into text

---
 nimble/core/data/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 47e0ae1..f7b4aa4 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -3874,7 +3874,8 @@ class Base(ABC):
     def _copy_pythonList(self, rowsArePoints):
         ret = self._copy_implementation('pythonlist')
         if len(self._dims) > 2:
-            ret = np.reshape(ret, self._dims).tolist()
+            # object dtype so that the values keep their types
+            ret = np.array(ret, dtype=np.object_).reshape(self._dims).tolist()
         if not rowsArePoints:
             ret = list(map(list, zip(*ret)))
         return ret
-- 
2.43.0


From 80f12f00fa4af2952ef027ebed42e701f18246e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 73/92] fix: points[...] with several points lost the
 dimensions of each point

---
 nimble/core/data/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 25d66aa..8ca5363 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -377,7 +377,11 @@ class Axis(ABC):
 
         if singleKey and len(self._base._dims) > 2:
             return self._base.pointView(key[0]).copy()
-        return self._structuralBackend_implementation('copy', key)
+        ret = self._structuralBackend_implementation('copy', key)
+        if self._isPoint:
+            # retain internal dimensions
+            ret._dims[1:] = self._base._dims[1:]
+        return ret
     
     def _anyDefaultNames(self):
         return self.names is None or len(self.names) < len(self)
-- 
2.43.0


From 890fbd86c03b79354c05b27b98a1f30fefe4eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 74/92] fix: points of other dimensions could be inserted or
 replace points

---
 nimble/core/data/axis.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nimble/core/data/axis.py b/nimble/core/data/axis.py
index 8ca5363..2aa5c28 100644
--- a/nimble/core/data/axis.py
+++ b/nimble/core/data/axis.py
@@ -677,6 +677,10 @@ class Axis(ABC):
 
         axis = self._axis
         dataAxis = dataObj._getAxis(axis)
+        if (self._isPoint and len(dataObj._dims) > 2
+                and self._base._dims[1:] != dataObj._dims[1:]):
+            msg = "Cannot replace points with points of different dimensions"
+            raise ImproperObjectAction(msg)
         # locations will take priority over axis name matches
         if locations is None and self._base._dims == dataObj._dims:
             locations = range(len(self))
@@ -1336,6 +1340,11 @@ class Axis(ABC):
             msg += f"{insertOffAxisLen} {offAxis}s."
             raise InvalidArgumentValue(msg)
 
+        if self._isPoint and self._base._dims[1:] != toInsert._dims[1:]:
+            msg = f"Cannot perform {funcName} operation when data has "
+            msg += "different dimensions"
+            raise ImproperObjectAction(msg)
+
         # this helper ignores default names - so we can only have an
         # intersection of names when BOTH objects have names created.
         if objHasAxisNames and insertHasAxisNames:
-- 
2.43.0


From ba443f9b8e66d489716f415b50a9c71a961e9f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 75/92] fix: arithmetic of high dimension Sparse objects with
 dense objects failed

---
 nimble/core/data/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index f7b4aa4..0cc969c 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -29,7 +29,7 @@ import numbers
 import itertools
 import os.path
 from abc import ABC, abstractmethod
-from contextlib import contextmanager
+from contextlib import contextmanager, ExitStack
 import shutil
 import re
 
@@ -5243,7 +5243,8 @@ class Base(ABC):
         Validate the object elements are all numeric.
         """
         try:
-            self.calculateOnElements(checkNumeric, useLog=False)
+            with self._treatAs2D():
+                self.calculateOnElements(checkNumeric, useLog=False)
         except ValueError as e:
             msg = "The object on the {0} contains non numeric data, "
             msg += "cannot do this operation"
@@ -5464,7 +5465,12 @@ class Base(ABC):
                 # inplace operations will modify the data even if op fails
                 # use not inplace operation, setting to inplace occurs after
                 useOp = opName[:2] + opName[3:]
-            with np.errstate(divide='raise', invalid='raise'):
+            with ExitStack() as stack:
+                stack.enter_context(np.errstate(divide='raise',
+                                                invalid='raise'))
+                stack.enter_context(obj._treatAs2D())
+                if otherBase:
+                    stack.enter_context(other._treatAs2D())
                 ret = obj._binaryOperations_implementation(useOp, other)
         except (TypeError, ValueError, FloatingPointError) as error:
             obj._diagnoseFailureAndRaiseException(opName, other, error)
-- 
2.43.0


From cc45283449583b72f7ed9c5125170da665feed5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 76/92] fix: high dimension Sparse objects could be stretched

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index b9fc30d..ddcd183 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -44,6 +44,7 @@ from ._dataHelpers import applyElementFunction
 from ._dataHelpers import createDataNoValidation
 from ._dataHelpers import csvCommaFormat
 from ._dataHelpers import csvNames
+from ._dataHelpers import limitedTo2D
 from ._dataHelpers import denseCountUnique
 from ._dataHelpers import NimbleElementIterator
 from ._dataHelpers import convertToNumpyOrder, modifyNumpyArrayValue
@@ -135,6 +136,7 @@ class Sparse(Base):
         return SparseFeatures(self, names)
 
     @property
+    @limitedTo2D
     def stretch(self):
         return StretchSparse(self)
 
-- 
2.43.0


From f1a0a91157fa8eeb20a7905a4955054131597ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:22 +0000
Subject: [PATCH 77/92] fix: point views of high dimension Sparse data with one
 feature lost their dimensions

---
 nimble/core/data/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nimble/core/data/sparse.py b/nimble/core/data/sparse.py
index ddcd183..6c78d67 100644
--- a/nimble/core/data/sparse.py
+++ b/nimble/core/data/sparse.py
@@ -782,6 +782,8 @@ class Sparse(Base):
             else:
                 primary = np.zeros((len(data),), dtype=int)
                 secondary = sortedSecondary
+                if len(self._dims) > 2:
+                    kwds['shape'] = [pshape] + self._dims[1:]
 
             if singlePoint:
                 row = primary
-- 
2.43.0


From 07476f076989c1ee756dcabaca78c636aacbe231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 78/92] fix: show respects a given lineWidthLimit

---
 nimble/core/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 0cc969c..5376656 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2747,10 +2747,10 @@ class Base(ABC):
         else:
             terminalSize = shutil.get_terminal_size()
 
-        if features is None and lineWidthLimit == 'automatic':
-            lineWidthLimit = max(79, terminalSize[0] - 1)
-        else:
+        if features is not None:
             lineWidthLimit = None
+        elif lineWidthLimit == 'automatic':
+            lineWidthLimit = max(79, terminalSize[0] - 1)
 
         if lineLimit == 'automatic':
             lineLimit = max(30, terminalSize[1] - 1)
-- 
2.43.0


From 9077775d2db4eb5c9e20408ecbf7111cc2715a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 79/92] fix: objects without points or features can be printed

---
 nimble/core/data/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5376656..5e8ffd8 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2765,7 +2765,7 @@ class Base(ABC):
                 lineLimit -= 1
 
         if columnWidthLimit == 'automatic':
-            if isinstance(lineWidthLimit, int):
+            if isinstance(lineWidthLimit, int) and 0 not in self.shape:
                 # If we just have point indices can know how much space they'll take up
                 if not self.points.names or len(self.points.names) == None:
                     pNamesEst = math.ceil(math.log(len(self.points), 10))
-- 
2.43.0


From 5fd735bed12e919a8f25380a0c0dc34b587864b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:10 +0000
Subject: [PATCH 80/92] fix: ranges of points and features to print are
 validated and truncated

---
 nimble/core/data/base.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 5e8ffd8..2ffb800 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2707,14 +2707,9 @@ class Base(ABC):
         if target.step != 1:
             msg = "range inputs for printing must have a step of 1, not "
             msg += f"{target.step}"
+            raise InvalidArgumentValue(msg)
 
-        desired = (target.start, target.stop)
-        if desired[0] < 0:
-            desired[0] = 0
-        if desired[1] > axisLength:
-            desired[1] = axisLength
-
-        return range(desired[0], desired[1])
+        return range(max(target.start, 0), min(target.stop, axisLength))
 
     def _getNotebookTerminalSize(self, _):
         """
@@ -5749,7 +5744,7 @@ class Base(ABC):
         and process them for length. Returns a list of prepared names
         and an int bounding the length of each name representation.
         """
-        if len(self.points) == 0:
+        if len(pRange) == 0:
             return [], 0
 
         names = []
@@ -5813,7 +5808,7 @@ class Base(ABC):
         third returned value is a list of feature names matching the columns
         represented in the first return value.
         """
-        if maxHeight < 2 and maxHeight != len(self.points):
+        if maxHeight < 2 and maxHeight != numPts:
             msg = "If the number of points in this object is two or greater, "
             msg += "then we require that the input argument maxHeight also "
             msg += "be greater than or equal to two."
-- 
2.43.0


From 191dd81e150108ec8c0f1a3069b35add4c11e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 81/92] fix: printing a range of one point showed the first
 point

---
 nimble/core/data/_dataHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 16fc27f..5613e4f 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -172,7 +172,7 @@ def indicesSplit(numAllow, iRange):
         numAllow -= 1
 
     if numAllow == 1 or total == 1:
-        return ([0], [])
+        return ([iRange.start], [])
 
     forward = int(math.ceil(numAllow / 2.0))
     backward = int(math.floor(numAllow / 2.0))
-- 
2.43.0


From 88841d92948a75c8f7f0d12083facbd604e485bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 82/92] fix: printing a given number of points labels and
 counts them correctly

---
 nimble/core/data/_dataHelpers.py |  7 +++++--
 nimble/core/data/base.py         | 28 ++++++++++++++++++----------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/nimble/core/data/_dataHelpers.py b/nimble/core/data/_dataHelpers.py
index 5613e4f..ba94058 100644
--- a/nimble/core/data/_dataHelpers.py
+++ b/nimble/core/data/_dataHelpers.py
@@ -159,17 +159,20 @@ def formatIfNeeded(value, sigDigits):
     return str(value)
 
 
-def indicesSplit(numAllow, iRange):
+def indicesSplit(numAllow, iRange, maxIndices=None):
     """
     Given a limit to how many indices we are allowed to display and a range of
     possible indices, return two lists of indices defining a middle ommision.
     In the tupple return, the first list are positive indices
     growing up from zero. The second list are negative indices
-    growing up to negative one.
+    growing up to negative one. If maxIndices is given, no more than
+    that many indices are returned.
     """
     total = len(iRange)
     if total > numAllow:
         numAllow -= 1
+    if maxIndices is not None:
+        numAllow = min(numAllow, maxIndices)
 
     if numAllow == 1 or total == 1:
         return ([iRange.start], [])
diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 2ffb800..03528f9 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2593,12 +2593,17 @@ class Base(ABC):
             points = self._validateAndTruncatePrintTarget(points, pointsLen)
             numPoints = len(points)
             pRange = points
+            maxPoints = None
         elif isinstance(points, int):
-            numPoints = min(points, pointsLen)
+            if points < 1:
+                raise InvalidArgumentValue("points must be greater than zero")
+            numPoints = pointsLen
             pRange = range(pointsLen)
+            maxPoints = points
         elif points is None:
             numPoints = pointsLen
             pRange = range(pointsLen)
+            maxPoints = None
         else:
             raise InvalidArgumentType(msg.format("points"))
 
@@ -2627,7 +2632,7 @@ class Base(ABC):
         # else table should include data but no pointnames + space for it
         pnames, pnamesWidth = self._arrangePointNames(pRange,
             maxDataRows, columnWidthLimit, rowHold, nameHolder, includePointNames,
-            quoteNames)
+            quoteNames, maxPoints)
         # The available space for the data is reduced by the width of the
         # pnames, a pnames column separator, the pnames separator, and another
         # pnames column separator
@@ -2638,7 +2643,8 @@ class Base(ABC):
             dataTable, colWidths, fnames = self._arrangeDataWithLimits(
                 numPoints, pRange, features,
                 maxDataWidth, maxDataRows, sigDigits, columnWidthLimit, colSep,
-                colHold, rowHold, nameHolder, includeFeatureNames, quoteNames)
+                colHold, rowHold, nameHolder, includeFeatureNames, quoteNames,
+                maxPoints)
         # combine names into finalized table
         finalTable, finalWidths = arrangeFinalTable(
             pnames, pnamesWidth, dataTable, colWidths, fnames, pnameSep)
@@ -5737,7 +5743,7 @@ class Base(ABC):
         self.__init__(**kwargs)
 
     def _arrangePointNames(self, pRange, maxRows, nameLength, rowHolder, nameHold,
-                           includePointNames, quoteNames):
+                           includePointNames, quoteNames, maxPoints=None):
         """
         Prepare point names for string output. Grab only section of
         those names that fit according to the given row limitation,
@@ -5751,7 +5757,7 @@ class Base(ABC):
         pnamesWidth = 0
         nameCutIndex = nameLength - len(nameHold)
 
-        tRowIDs, bRowIDs = indicesSplit(maxRows, pRange)
+        tRowIDs, bRowIDs = indicesSplit(maxRows, pRange, maxPoints)
 
         def getNameString(index):
             if self.points._allDefaultNames() or includePointNames is False:
@@ -5790,7 +5796,8 @@ class Base(ABC):
     def _arrangeDataWithLimits(self, numPts, pRange, features,
                                maxWidth, maxHeight, sigDigits,
                                maxStrLength, colSep, colHold, rowHold,
-                               strHold, includeFeatureNames, quoteNames):
+                               strHold, includeFeatureNames, quoteNames,
+                               maxPoints=None):
         """
         Arrange the data in this object into a table structure, while
         respecting the given boundaries. If there is more data than
@@ -5839,15 +5846,16 @@ class Base(ABC):
         maxRows = min(maxHeight, numPts)
         maxDataRows = maxRows
 
-        if numFts == 0:
-            return [[]] * maxDataRows, [], []
-
         if numPts > 0:
-            tRowIDs, bRowIDs = indicesSplit(maxDataRows, pRange)
+            tRowIDs, bRowIDs = indicesSplit(maxDataRows, pRange, maxPoints)
         else:
             tRowIDs, bRowIDs = [], []
         combinedRowIDs = tRowIDs + bRowIDs
 
+        if numFts == 0:
+            numRows = len(combinedRowIDs) + (len(combinedRowIDs) < numPts)
+            return [[]] * numRows, [], []
+
         if len(combinedRowIDs) < numPts:
             rowHolderIndex = len(tRowIDs)
         else:
-- 
2.43.0


From 12f016309fc164d3d4aec65a820ffa4675e4a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 83/92] fix: printing a given number of features works inwards
 from both ends

---
 nimble/core/data/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nimble/core/data/base.py b/nimble/core/data/base.py
index 03528f9..8deaa48 100644
--- a/nimble/core/data/base.py
+++ b/nimble/core/data/base.py
@@ -2610,7 +2610,8 @@ class Base(ABC):
         if isinstance(features, range):
             features = self._validateAndTruncatePrintTarget(features, featuresLen)
         elif isinstance(features, int):
-            pass # no action needed
+            if features < 1:
+                raise InvalidArgumentValue("features must be greater than zero")
         elif features is None:
             features = len(self.features)
         else:
@@ -5829,12 +5830,14 @@ class Base(ABC):
         # range or an int
         if isinstance(features, range):
             numFts = len(features)
+            maxFts = numFts
             if numFts != 0:
                 fOffset = features[0]
             else:
                 fOffset = 0
         else:
-            numFts = features
+            numFts = len(self.features)
+            maxFts = features
             fOffset = 0
 
         #setup a bundle of default values
@@ -5892,7 +5895,8 @@ class Base(ABC):
         else:
             fnames = self.features.getNames()
 
-        while totalWidth < maxWidth and currIndex != endIndex:
+        while (totalWidth < maxWidth and currIndex != endIndex
+               and numAdded < maxFts):
             currTable = lTable if currIndex >= 0 else rTable
             currCol = []
 
-- 
2.43.0


From aeef9be20524455f8236a01734873ccd28cf04ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 84/92] fix: compressed tar files are extracted

---
 nimble/core/_createHelpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 77810b5..67e5b87 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1810,7 +1810,7 @@ def _processArchiveFile(filename, extract):
         archiveObj = zipfile.ZipFile
         nameGetter = 'namelist'
     else:
-        archiveObj = tarfile.TarFile
+        archiveObj = tarfile.open
         nameGetter = 'getnames'
     with archiveObj(filename, 'r') as fileObj:
         names = getattr(fileObj, nameGetter)()
@@ -2236,10 +2236,13 @@ def createDataFromFile(
 
     # check if need to decompress or extract file
     with BytesIO(content) as toCheck:
-        if _isGZip(toCheck):
-            content = _decompressGZip(toCheck).read()
-        elif _isArchive(toCheck):
+        # a compressed tar file is an archive as well
+        if _isArchive(toCheck):
             content = _extractFromArchive(toCheck, dataFilter).read()
+        else:
+            toCheck.seek(0)
+            if _isGZip(toCheck):
+                content = _decompressGZip(toCheck).read()
 
     with BytesIO(content) as toCheck:
         extension = _autoFileTypeChecker(toCheck)
-- 
2.43.0


From 0120a2902ab3b619d2b2d9298adf09a9ad5566fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 85/92] fix: a downloaded archive is always extracted

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 67e5b87..ee2feaf 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2002,7 +2002,7 @@ class _DirectURLManager:
 
         try:
             if _isArchive(self.path):
-                return _processArchiveFile(self.path, overwrite)
+                return _processArchiveFile(self.path, True)
             if _isGZip(self.path):
                 return _processCompressedFile(self.path)
         except Exception: # pylint: disable=broad-except
-- 
2.43.0


From 662093586596948924d593115005972659bbd3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:27 +0000
Subject: [PATCH 86/92] fix: decompressing a gzip file without the gz extension
 emptied it

---
 nimble/core/_createHelpers.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index ee2feaf..7ae3d47 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -39,6 +39,7 @@ import pickle
 import numbers
 import itertools
 import time
+from contextlib import contextmanager
 from collections.abc import Sequence
 
 import numpy as np
@@ -1800,6 +1801,21 @@ def _isGZip(filename):
     with open(filename, 'rb') as f:
         return f.read(2) == b'\x1f\x8b'
 
+@contextmanager
+def _writeThenReplace(path):
+    """
+    Provide a new file which takes the place of the file at the path only
+    after it has been written successfully.
+    """
+    partial = path + '.part'
+    try:
+        with open(partial, 'wb') as f:
+            yield f
+        os.replace(partial, path)
+    finally:
+        if os.path.exists(partial):
+            os.remove(partial)
+
 def _processArchiveFile(filename, extract):
     """
     Extract contents of an archive file.
@@ -1840,7 +1856,7 @@ def _processCompressedFile(filename):
             unzipped = filename[:-3]
         else:
             unzipped = filename
-        with open(unzipped, 'wb') as fOut:
+        with _writeThenReplace(unzipped) as fOut:
             shutil.copyfileobj(fIn, fOut)
         return [unzipped]
 
@@ -1967,7 +1983,8 @@ class _DirectURLManager:
                 self.local = _processArchiveFile(self.path, False)
             else:
                 isGZip = _isGZip(self.path)
-                if isGZip and os.path.exists(self.path[:-3]):
+                if (isGZip and self.path.endswith('.gz')
+                        and os.path.exists(self.path[:-3])):
                     # already decompressed gzip file
                     self.local = [self.path[:-3]]
                 elif isGZip:
-- 
2.43.0


From 0dab4ee73d2133e446c3582655b3c20fdfea3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 87/92] fix: an interrupted download is not left as the local
 file

---
 nimble/core/_createHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 7ae3d47..c1b0cb1 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -2012,7 +2012,7 @@ class _DirectURLManager:
         if not os.path.exists(directory):
             os.makedirs(directory)
 
-        with open(self.path, 'w+b') as f:
+        with _writeThenReplace(self.path) as f:
             f.write(response.content)
 
         self.local = self.path
-- 
2.43.0


From 25a496d187a41c1d999ec62c23142efb7b1deb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 88/92] fix: a failed extraction does not leave partial files
 as the data

---
 nimble/core/_createHelpers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index c1b0cb1..19cf52c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -31,6 +31,7 @@ import datetime
 import re
 import zipfile
 import tarfile
+import tempfile
 import gzip
 import shutil
 import urllib.parse
@@ -1838,7 +1839,16 @@ def _processArchiveFile(filename, extract):
         paths = [os.path.join(location, name) for name in names]
         # only need to extract if overwrite or any expected files don't exist
         if extract or not all(os.path.exists(path) for path in paths):
-            fileObj.extractall(location)
+            # members take their place only once everything is extracted
+            with tempfile.TemporaryDirectory(dir=location) as tmpDir:
+                fileObj.extractall(tmpDir)
+                for name, path in zip(names, paths):
+                    extracted = os.path.join(tmpDir, name)
+                    if os.path.isdir(extracted):
+                        os.makedirs(path, exist_ok=True)
+                    else:
+                        os.makedirs(os.path.dirname(path), exist_ok=True)
+                        os.replace(extracted, path)
 
         files = []
         for path in paths:
-- 
2.43.0


From 547058a07060d7caff09ab52f731ea6d9621a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:43 +0000
Subject: [PATCH 89/92] fix: urls which differ in their query are stored
 separately

---
 nimble/core/_createHelpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 19cf52c..6349c93 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -33,6 +33,7 @@ import zipfile
 import tarfile
 import tempfile
 import gzip
+import hashlib
 import shutil
 import urllib.parse
 import locale
@@ -1957,6 +1958,11 @@ def _getNimbleDataPath(source):
         netLoc = netLoc[4:]
     directory = os.path.join(*urlInfo.path.split('/'))
     localPath = os.path.join(homepath, netLoc, directory)
+    if urlInfo.query:
+        # the same path provides different data for different queries
+        digest = hashlib.sha256(urlInfo.query.encode()).hexdigest()[:16]
+        head, tail = os.path.split(localPath)
+        localPath = os.path.join(head, digest, tail)
 
     return localPath
 
-- 
2.43.0


From d2a8135fab252b7e56de27998fadb29b275329e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 90/92] fix: an archive that cannot be extracted is returned
 when stored locally too

---
 nimble/core/_createHelpers.py | 42 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index 6349c93..da469f9 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1871,6 +1871,25 @@ def _processCompressedFile(filename):
             shutil.copyfileobj(fIn, fOut)
         return [unzipped]
 
+def _availableFiles(path, extract):
+    """
+    The files provided by a local file: its contents for an archive or
+    compressed file that can be extracted, otherwise the file itself.
+    """
+    try:
+        if _isArchive(path):
+            return _processArchiveFile(path, extract)
+        if _isGZip(path):
+            if (not extract and path.endswith('.gz')
+                    and os.path.exists(path[:-3])):
+                # already decompressed gzip file
+                return [path[:-3]]
+            return _processCompressedFile(path)
+    except Exception: # pylint: disable=broad-except
+        pass # return the archive file on failure
+
+    return [path]
+
 def _processUCISource(source):
     """
     UCI source can be UCI shorthand ('uci::<Dataset name>'),
@@ -1995,18 +2014,7 @@ class _DirectURLManager:
                 # need to use _IndirectURLManager
                 msg = 'source does not provide downloadable data'
                 raise InvalidArgumentValue(msg)
-            if _isArchive(self.path):
-                self.local = _processArchiveFile(self.path, False)
-            else:
-                isGZip = _isGZip(self.path)
-                if (isGZip and self.path.endswith('.gz')
-                        and os.path.exists(self.path[:-3])):
-                    # already decompressed gzip file
-                    self.local = [self.path[:-3]]
-                elif isGZip:
-                    self.local = _processCompressedFile(self.path)
-                else:
-                    self.local = [self.path]
+            self.local = _availableFiles(self.path, False)
         else:
             self.local = None
         if self.local is None and not _isDownloadable(self.source):
@@ -2033,15 +2041,7 @@ class _DirectURLManager:
 
         self.local = self.path
 
-        try:
-            if _isArchive(self.path):
-                return _processArchiveFile(self.path, True)
-            if _isGZip(self.path):
-                return _processCompressedFile(self.path)
-        except Exception: # pylint: disable=broad-except
-            pass # return the archive file on failure
-
-        return [self.path]
+        return _availableFiles(self.path, True)
 
 class _IndirectURLManager:
     """
-- 
2.43.0


From c26088c8a7a36f69917c9b4742391eb2dbfb8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:29 +0000
Subject: [PATCH 91/92] fix: links within a tar file cannot place files
 elsewhere

---
 nimble/core/_createHelpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nimble/core/_createHelpers.py b/nimble/core/_createHelpers.py
index da469f9..489a82c 100644
--- a/nimble/core/_createHelpers.py
+++ b/nimble/core/_createHelpers.py
@@ -1835,6 +1835,9 @@ def _processArchiveFile(filename, extract):
         if any(os.path.isabs(name) or '..' in name for name in names):
             # potential security risk will not perform extraction
             return [filename]
+        if archiveObj is tarfile.open and hasattr(tarfile, 'data_filter'):
+            # links can lead outside as well
+            fileObj.extraction_filter = tarfile.data_filter
 
         location = os.path.dirname(filename)
         paths = [os.path.join(location, name) for name in names]
-- 
2.43.0


From 5c7f896607cc228fc4256998185720414bc54e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:30 +0000
Subject: [PATCH 92/92] fix: exporting a multi-dimensional Matrix or DataFrame
 to a numpy array copies the data

---
 nimble/core/data/dataframe.py | 2 --
 nimble/core/data/matrix.py    | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/nimble/core/data/dataframe.py b/nimble/core/data/dataframe.py
index d22e442..4accbc3 100644
--- a/nimble/core/data/dataframe.py
+++ b/nimble/core/data/dataframe.py
@@ -230,8 +230,6 @@ class DataFrame(Base):
                 arr = arr.reshape(self._dims)
             if to == 'pythonlist':
                 return arr.tolist()
-            if needsReshape:
-                return arr
             return arr.copy()
 
         if needsReshape:
diff --git a/nimble/core/data/matrix.py b/nimble/core/data/matrix.py
index 5c8bdd9..ef6bcfe 100644
--- a/nimble/core/data/matrix.py
+++ b/nimble/core/data/matrix.py
@@ -185,7 +185,7 @@ class Matrix(Base):
         needsReshape = len(self._dims) > 2
         if to == 'numpyarray':
             if needsReshape:
-                return self._data.reshape(self._dims)
+                return self._data.copy().reshape(self._dims)
             return self._data.copy()
         if needsReshape:
             data = np.empty(self._dims[:2], dtype=np.object_)
-- 
2.43.0

