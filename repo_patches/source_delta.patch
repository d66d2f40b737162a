From c47e5b15c5e00efdd81d544c925a11e0b47c36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 01/56] fix: printing a number of 70 or more integer digits
 raised InvalidOperation

---
 modularcalculator/objects/number.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..98bd00f 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -1,6 +1,6 @@
 #!/usr/bin/python3
 
-from decimal import Decimal, getcontext, InvalidOperation
+from decimal import Decimal, getcontext, localcontext, InvalidOperation
 from importlib import import_module
 import math
 
@@ -70,7 +70,11 @@ class Number:
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        with localcontext() as context:
+            # Rounding to a number of decimal places needs enough precision for all the integer digits too
+            if dec_num != 0:
+                context.prec = max(context.prec, dec_num.adjusted() + 2 + NUMBER['decimal_places'])
+            val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From 591fc8b67644da8e322f3c14ad7020db2e1c66cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 02/56] fix: merging leftover units of one dimension used
 another dimension's unit or a stale index

---
 modularcalculator/services/unitnormaliser.py | 34 +++++++++-----------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..bd94d73 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -264,33 +264,31 @@ class UnitNormaliser:
     # Check if any remaining subunits are the same dimension
     def dedupe(self, value, unit):
         if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
+            # Get list of dimensions and the subunits of each, as they were before any are removed or replaced
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
+            for subunit in unit.list():
+                if subunit.unit.dimension not in dimensions:
+                    dimensions[subunit.unit.dimension] = []
+                dimensions[subunit.unit.dimension].append((subunit.unit, subunit.power))
 
             for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
+                subunits = dimensions[dimension]
+                if len(subunits) > 1:
                     # Need to de-dupe
                     power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
+                    for _, subunit_power in subunits:
+                        power += subunit_power
                     if power.to_decimal() != 0:
                         # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                        replace_all_with_unit = subunits[0][0]
+                        for subunit_unit, subunit_power in subunits:
+                            if subunit_unit != replace_all_with_unit:
+                                value = unit.removeandconvert(value, subunit_unit, subunit_power, False)
+                                value = unit.addandconvert(value, replace_all_with_unit, subunit_power, False)
                     else:
                         # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
+                        for subunit_unit, subunit_power in subunits:
+                            value = unit.removeandconvert(value, subunit_unit, subunit_power, False)
 
 
         return value, unit
-- 
2.43.0


From 5d8cc2babb9cc84ce97e3db7368b12095d7d0ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 03/56] fix: an operation's number type was written onto the
 variable or constant it returned

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..50af2cf 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # The result may be the same object as an input, variable or constant, so only change a copy
+                    result_value = copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From 886ddae8071970158df02f880c7ae7c4fb2ac5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 04/56] fix: parameters of an inline function that failed
 unexpectedly stayed in the caller's state

---
 modularcalculator/features/structure/inlinefunctions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..11ee9d4 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -158,15 +158,11 @@ class InlineFunctionsPointerHandler:
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
-            # Restore calculator state
-            calculator.vars = backup_vars
-
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state, however the function ended
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From 8d2a4b7a088b113f32daf1459e844d975859f68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 05/56] fix: a failing statement inside an inline function was
 ignored unless it was the last

---
 modularcalculator/features/structure/inlinefunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 11ee9d4..17c563e 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -152,6 +152,8 @@ class InlineFunctionsPointerHandler:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
                         val = calculator.execute(statement_items, flags.copy())
+                        if isinstance(val.value, Exception):
+                            raise val.value
                     statement_items = []
                 else:
                     statement_items.append(item)
-- 
2.43.0


From 607c5a89e9e303cf38fe3bdf568b2ff981949169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 06/56] fix: array ranges compared their bounds before
 converting units and accepted mismatched or uncast components

---
 modularcalculator/features/arrays/arrays.py | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..129d565 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -228,9 +228,7 @@ class ArrayElement():
         else:
             return [element_result]
 
-        step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
+        step_result = None
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -240,16 +238,32 @@ class ArrayElement():
                 raise ExecuteException("Arrays with range must be numerical", [], None)
             state['items'] += len(self.step)
 
-        if element_result.unit is not None or end_element_result.unit is not None or step_result.unit is not None:
+        # The components could be anything that can be cast to a number, and could be shared with variables or constants
+        element_result = OperandResult(calculator.number(element_result.value), element_result.unit, element_result.ref)
+        end_element_result = OperandResult(calculator.number(end_element_result.value), end_element_result.unit, None)
+        right_elements = [end_element_result]
+        if step_result is not None:
+            step_result = OperandResult(calculator.number(step_result.value), step_result.unit, None)
+            right_elements.append(step_result)
+
+        if element_result.unit is not None or len([r for r in right_elements if r.unit is not None]) > 0:
             if element_result.unit is None:
                 raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-            for right_element in (end_element_result, step_result):
+            for right_element in right_elements:
                 if right_element.unit is None:
                     raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], True, False)
+                # The step is a difference rather than a point on a scale, eg: for temperatures
+                relative = (right_element is step_result)
+                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], False, relative)
                 right_element.value = values[1]
                 right_element.unit = units[1]
 
+        if step_result is None:
+            # Default step is towards the end, now that it's in the same unit as the start
+            step_result = OperandResult(Number(1), element_result.unit, None)
+            if end_element_result.value < element_result.value:
+                step_result = OperandResult(Number(-1), element_result.unit, None)
+
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
             raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
 
-- 
2.43.0


From 4d120d05d66a4291a0726336e1cdabc506df3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 07/56] fix: base-10 arbitrary-base literals recursed forever
 when printed, and literals with a repeated prefix or illegal base-10 digits
 were misread or crashed

---
 modularcalculator/features/numerical/bases.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..ab37925 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,7 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        return val.lower().replace(prefix, '', 1)
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
@@ -65,8 +65,6 @@ class BasesFeature(Feature):
             return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
 
@@ -101,6 +99,8 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
+            val = val.copy()
+            val.number_cast = None
             return val.to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
-- 
2.43.0


From ef984fe8515ce1091ca1387b54850173ffb5d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 08/56] fix: numbers that round to zero were displayed as -0,
 and bases could end in a bare point

---
 modularcalculator/features/numerical/bases.py | 6 +++---
 modularcalculator/objects/number.py           | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index ab37925..b156ec5 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -125,8 +125,8 @@ class BasesFeature(Feature):
                 places += 1
             power -= 1
 
-        if negative:
-            string = '-' + string
         if string.find('.') > -1:
-            string = string.rstrip('0')
+            string = string.rstrip('0').rstrip('.')
+        if negative and string != '0':
+            string = '-' + string
         return string
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 98bd00f..ddc8d23 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,14 +67,15 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
-        if dec_num == 0:
-            # This is to avoid getting '-0'
-            dec_num = 0
         with localcontext() as context:
             # Rounding to a number of decimal places needs enough precision for all the integer digits too
             if dec_num != 0:
                 context.prec = max(context.prec, dec_num.adjusted() + 2 + NUMBER['decimal_places'])
-            val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+            dec_num = round(dec_num, NUMBER['decimal_places'])
+            if dec_num == 0:
+                # This is to avoid getting '-0'
+                dec_num = 0
+            val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From 0b2fa2cd78d5d35849f6c53e2fd0cc764047ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 09/56] fix: simplifying the units of a very small quantity
 raised ValueError

---
 modularcalculator/services/unitnormaliser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index bd94d73..1e6a6e7 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -294,7 +294,8 @@ class UnitNormaliser:
         return value, unit
 
     def get_closeness(self, num):
-        closeness = abs(math.log10(abs(float(num))) - self.simplify_preferred_magnitude)
+        # Logarithm taken as a decimal, as a float can be too small to hold the number
+        closeness = abs(float(abs(num.to_decimal()).log10()) - self.simplify_preferred_magnitude)
         if num < self.simplify_penalise_below:
             closeness *= self.simplify_penalty
         return closeness
-- 
2.43.0


From ae7ec0fdab2cb4062ab759ab07375c1aa3f6aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 10/56] fix: finalizing an array result altered the array
 stored in the variable it came from

---
 modularcalculator/engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..9d18720 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -325,9 +325,9 @@ class Engine:
         if answer is None:
             return None
         if type(answer.value) == list:
-            # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            # If answer is an array, apply finalization to each element. The array and its elements could be stored in a
+            # variable or an earlier result, so finalize copies of them.
+            answer.value = [self.finalize(OperandResult(ans.value, ans.unit, ans.ref)) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From dc95459f033ac7a472ef9093b5e33d0c1a0992a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 11/56] fix: a variable whose name starts with the array step
 symbol could not be used inside an array

---
 modularcalculator/features/arrays/arrays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 129d565..5bddb77 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -129,6 +129,9 @@ class ArraysFeature(Feature):
 
         array = ('array' in flags.keys() and flags['array'])
         if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol:
+            if symbol.isalpha() and len(next) > len(symbol) and (next[len(symbol)].isalpha() or next[len(symbol)] == '_'):
+                # This is a longer word which only starts with the step symbol, eg: a variable
+                return None, None, None
             return None, None, {'end': True, 'array_step': True}
 
         return None, None, None
-- 
2.43.0


From d26de0d0a64827305d3db882232ce457398054bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 12/56] fix: a statement made of other items with the same text
 as an earlier unfinished one was joined with the next line

---
 modularcalculator/features/structure/terminator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..0eee4d1 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,7 +43,8 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
+            # Compare item by item: different items could make up the same text, eg: an operator word and a longer variable name
+            func_item_text = [(item.desc(), item.text) for item in func_items]
             if func_item_text == self.last_failed_terminator:
                 return None, None, None
 
-- 
2.43.0


From c9513e27dcf57b7afa97ccc3ea8be70173d1df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 13/56] fix: reset() and delete() changed the variables of a
 stateless calculation

---
 modularcalculator/features/state/assignmentfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..1d42e15 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -45,13 +45,15 @@ class AssignmentFunctionsFeature(Feature):
             1)
 
     def func_reset(self, vals, units, refs, flags):
-        self.vars = {}
+        if 'stateless' not in flags.keys() or not flags['stateless']:
+            self.vars = {}
         return OperationResult(None)
 
     def func_delete(self, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
             varname = refs[0].var
-            del self.vars[varname]
+            if 'stateless' not in flags.keys() or not flags['stateless']:
+                del self.vars[varname]
             return OperationResult(None)
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From 561e93a02bb94400a5ae58038b48d59b74fac272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 14/56] fix: deeply nested input raised RecursionError instead
 of a calculating error

---
 modularcalculator/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9d18720..a5d9243 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -105,6 +105,8 @@ class Engine:
                 except ParseException as err:
                     statements[-1].extend(err.items)
                     raise ParsingException(err.message, statements, err.next)
+                except RecursionError:
+                    raise ParsingException("Expression is nested too deeply", statements, next)
 
                 break_after_this = False
                 if items_found is not None or (length is not None and length > 0):
@@ -248,6 +250,8 @@ class Engine:
                 return OperandResult(err, None, None)
             except CalculatorException as err:
                 return OperandResult(ExecuteException(err.message, previous_items, item.text), None, None)
+            except RecursionError:
+                return OperandResult(ExecuteException("Expression is nested too deeply", previous_items, item.text), None, None)
         return item
 
     def execute_operator(self, sym, items, i, opwidth, original_items, flags):
-- 
2.43.0


From 0b13f1ddaa6aff2c12571a01237df880a1ef8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 15/56] fix: a scientific literal with an enormous exponent
 escaped as a decimal Overflow

---
 modularcalculator/features/numerical/expnumbers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..f750273 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -62,7 +62,10 @@ class ExpNumbersFeature(Feature):
             numexp_match = numexp_regex.match(next)
             if (numexp_match):
                 numexp = numexp_match.group(1)
-                decnum = ExpNumericalRepresentation.parse(self, numexp)
+                try:
+                    decnum = ExpNumericalRepresentation.parse(self, numexp)
+                except ArithmeticError:
+                    raise ParseException("Number out of range: {0}".format(numexp), [], next)
                 return [LiteralItem(numexp, decnum)], len(numexp), None
         return None, None, None
 
-- 
2.43.0


From 1b5006b63fd3a20e1387e0c27960971961003f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 16/56] fix: using an error stored in an array raised
 AttributeError or gave a position in another statement

---
 modularcalculator/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index a5d9243..52ea4d4 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -244,7 +244,11 @@ class Engine:
                     return OperandResult(UnitPowerList(), None, None)
                 return OperandResult(None, None, None)
             try:
-                item = item.result(flags)
+                result = item.result(flags)
+                if isinstance(result.value, Exception):
+                    # This error was an element of an array, so any items it has aren't the items being executed now
+                    raise CalculatorException(result.value.message)
+                item = result
             except ExecuteException as err:
                 err.items = previous_items + err.items
                 return OperandResult(err, None, None)
-- 
2.43.0


From bb9db2ab43bf52c9063815d862a97d8bdc51def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 17/56] fix: compound assignment of an array ran once per
 element instead of element by element

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..3c2f956 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,7 +50,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -59,7 +59,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -68,7 +68,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -77,7 +77,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -86,7 +86,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -95,7 +95,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -104,7 +104,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
 
     def op_var_increment(self, vals, units, refs, flags):
-- 
2.43.0


From 9d33db8596f08fecdb4e957189598eb3a14c9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 18/56] fix: variables whose name starts with a constant, unit,
 system or representation and goes on with _ or a digit were misread

---
 modularcalculator/features/numerical/numericalrepresentation.py | 2 +-
 modularcalculator/features/state/constants.py                   | 2 +-
 modularcalculator/features/units/systems.py                     | 2 +-
 modularcalculator/features/units/units.py                       | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/numerical/numericalrepresentation.py b/modularcalculator/features/numerical/numericalrepresentation.py
index e6d1637..3f8bcaa 100644
--- a/modularcalculator/features/numerical/numericalrepresentation.py
+++ b/modularcalculator/features/numerical/numericalrepresentation.py
@@ -41,7 +41,7 @@ class NumericalRepresentationFeature(Feature):
         next = expr[i:]
 
         for numrep in self.number_types.keys():
-            if next.startswith(numrep) and (len(next) == len(numrep) or not next[len(numrep)].isalpha()):
+            if next.startswith(numrep) and (len(next) == len(numrep) or not (next[len(numrep)].isalnum() or next[len(numrep)] == '_')):
                 return [NumericalRepresentationItem(numrep)], len(numrep), None
 
         return None, None, None
diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index f9e2061..6ce75ab 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)')
+    constant_regex = re.compile(r'([a-zA-Z]+)(?![a-zA-Z0-9_])')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
diff --git a/modularcalculator/features/units/systems.py b/modularcalculator/features/units/systems.py
index 354e8e0..dcd945d 100755
--- a/modularcalculator/features/units/systems.py
+++ b/modularcalculator/features/units/systems.py
@@ -41,7 +41,7 @@ class UnitSystemsFeature(Feature):
         next = expr[i:]
 
         for system in self.unit_normaliser.systems.keys():
-            if next.startswith(system) and (len(next) == len(system) or not next[len(system)].isalpha()):
+            if next.startswith(system) and (len(next) == len(system) or not (next[len(system)].isalnum() or next[len(system)] == '_')):
                 return [UnitSystemItem(system)], len(system), None
 
         return None, None, None
diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..aad05a1 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -108,7 +108,7 @@ class UnitsFeature(Feature):
         return None, None, None
 
     def unit_char(self, char):
-        return char.isalpha() or char == '_'
+        return char.isalnum() or char == '_'
 
     def op_unit_conversion(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList):
-- 
2.43.0


From aa67df2c873b9250ac97f93f7f65d6d484c67b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 19/56] fix: delete() of a variable holding an array did
 nothing

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 1d42e15..42f9bfa 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         if 'stateless' not in flags.keys() or not flags['stateless']:
-- 
2.43.0


From c0b13136a89b36a41963e264953faaf1004bd29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 20/56] fix: compound assignments returned the value in the
 representation of the operand instead of the variable

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 3c2f956..87000ae 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -51,7 +51,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -60,7 +60,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -69,7 +69,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -78,7 +78,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -87,7 +87,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -96,7 +96,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -105,7 +105,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From f30d740b4b290ea2a877b3b39024a9b34354ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 21/56] fix: some products of units with repeated dimensions
 were taken to have another dimension

---
 modularcalculator/objects/units.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..c4eb6c7 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -218,12 +218,9 @@ class AbstractPowerList:
         return newlist
 
     def deduplicate(self):
-        newlist = self.copy()
-        for i, obj in enumerate(newlist.list()):
-           duplicates = [o for j, o in enumerate(newlist.list()[i + 1:]) if o.key() == obj.key()]
-           for duplicate in duplicates:
-               obj.power += duplicate.power
-               newlist._del(duplicate)
+        newlist = type(self)()
+        for obj in self.list():
+            newlist.add(obj.key(), obj.power)
         return newlist.remove_zeros()
 
     def remove_zeros(self):
-- 
2.43.0


From 97f05278dfd3f115dfe006ca7689b7907f1f5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 22/56] fix: a quantity's dimensions were only accepted by a
 restriction listing them in the same order

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 1e6a6e7..a37355a 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -397,7 +397,7 @@ class UnitNormaliser:
         return self.dimensionlist_to_relationship(self.relationship_to_dimensions(relationship.copy()))
 
     def dimensionlist_to_relationship(self, dimensionlist):
-        return [(d.dimension, d.power) for d in dimensionlist]
+        return sorted([(d.dimension, d.power) for d in dimensionlist], key=lambda d: d[0])
 
     def check_unit_dimensions(self, unit, relationship):
         unit_relationship = self.unit_to_relationship(unit)
-- 
2.43.0


From d724a721f05f8dfc5055411460dc618e71b6fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:25 +0000
Subject: [PATCH 23/56] fix: temperature offsets were applied when converting
 or simplifying products and powers of units

---
 modularcalculator/services/unitnormaliser.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index a37355a..f90e303 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -126,6 +126,11 @@ class UnitNormaliser:
         if self.unit_normalised_dimensionlist(fromunit) != self.unit_normalised_dimensionlist(tounit):
             raise CalculatorException("Can't convert units: {0} and {1}".format(fromunit.plural(), tounit.plural()))
 
+        # An offset, such as that of a temperature, only means something for a unit on its own
+        for unit in (fromunit, tounit):
+            if len(unit.list()) != 1 or unit.list()[0].power != Number(1):
+                relative = True
+
         if fromunit != tounit:
             num = fromunit.convertfrom(num, relative)
             num = tounit.convertto(num, relative)
@@ -241,15 +246,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -283,12 +288,12 @@ class UnitNormaliser:
                         replace_all_with_unit = subunits[0][0]
                         for subunit_unit, subunit_power in subunits:
                             if subunit_unit != replace_all_with_unit:
-                                value = unit.removeandconvert(value, subunit_unit, subunit_power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, subunit_power, False)
+                                value = unit.removeandconvert(value, subunit_unit, subunit_power, True)
+                                value = unit.addandconvert(value, replace_all_with_unit, subunit_power, True)
                     else:
                         # Units cancel out
                         for subunit_unit, subunit_power in subunits:
-                            value = unit.removeandconvert(value, subunit_unit, subunit_power, False)
+                            value = unit.removeandconvert(value, subunit_unit, subunit_power, True)
 
 
         return value, unit
-- 
2.43.0


From 0349707b3f6ecd89247e679027b61799a0e56211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 24/56] fix: multiplying by a quantity whose units cancel out
 with the other operand's raised AttributeError

---
 modularcalculator/services/unitnormaliser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index f90e303..9707407 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -155,6 +155,7 @@ class UnitNormaliser:
                     for j in range(i + 1, len(values)):
                         if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i].copy(), values[j], units[j].copy(), relative)
+                        if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_right(values[i], units[i].copy(), values[j], units[j].copy(), relative)
             else:
                 for i in range(1, len(units)):
-- 
2.43.0


From 688a1ef00b5a07b349d6f942867506793f9df5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 25/56] fix: the US dram was half of an eighth of a US fluid
 ounce

---
 modularcalculator/features/unitdefinitions/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/volume.py b/modularcalculator/features/unitdefinitions/volume.py
index bf2276a..c44beb4 100755
--- a/modularcalculator/features/unitdefinitions/volume.py
+++ b/modularcalculator/features/unitdefinitions/volume.py
@@ -87,7 +87,7 @@ class UnitDefinitionUKGallon(UnitDefinition):
 class UnitDefinitionUSDram(UnitDefinition):
 
     namelist = ['US drams','US dram']
-    unitscale = Number('0.00000184834559765625')
+    unitscale = Number('0.0000036966911953125')
     systems = ['us']
 
 class UnitDefinitionUSFluidOunce(UnitDefinition):
-- 
2.43.0


From 1b7299da1ba73db144f1e1eb311f79e94f6a9b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 26/56] fix: the acre was not exactly 43560 square feet

---
 modularcalculator/features/unitdefinitions/area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/area.py b/modularcalculator/features/unitdefinitions/area.py
index 068dff0..4fa5697 100755
--- a/modularcalculator/features/unitdefinitions/area.py
+++ b/modularcalculator/features/unitdefinitions/area.py
@@ -30,7 +30,7 @@ class UnitDefinitionAcre(UnitDefinition):
 
     namelist = ['acres','acre']
     symbollist = ['ac']
-    unitscale = Number('4046.9')
+    unitscale = Number('4046.8564224')
     systems = ['us', 'uk']
     use_for_condense = False
 
-- 
2.43.0


From f313e72ea7930055264c4714962fe8faaf73e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:38 +0000
Subject: [PATCH 27/56] fix: the symbol of the gigaohm was read as the constant
 G followed by ohms

---
 modularcalculator/features/state/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index 6ce75ab..b801474 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)(?![a-zA-Z0-9_])')
+    constant_regex = re.compile(r'([a-zA-Z]+)(?!\w)')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
-- 
2.43.0


From c8196c31cd23accbe3a9aa133102fa913ddfc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 28/56] fix: ~ inverted one bit too many for some integers of
 51 or more bits, and failed on zero and on numbers given as text

---
 modularcalculator/features/numerical/bitwiseoperators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..04909cc 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -110,9 +110,9 @@ class BitwiseOperatorsFeature(Feature):
         if hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+            mask_val = 2**max(1, int_val.bit_length()) - 1
         flipped_val = ~int_val
-        masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
+        masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
         masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
 
-- 
2.43.0


From 0e11a2b8325b1ef75ef51afeb4a6760d33f51686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:06 +0000
Subject: [PATCH 29/56] fix: a zero in an impossible base was accepted as a
 number

---
 modularcalculator/features/numerical/bases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index b156ec5..814e9ce 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -61,12 +61,12 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
+        if val == '0':
+            return Number(0)
 
         negative = False
         if val[0] == '-':
-- 
2.43.0


From 79526de626ad8a12f4854c87867ac066ad47515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 30/56] fix: ~ of a bitwise result that is not binary inverted
 as many bits as the result's operands have decimal digits

---
 modularcalculator/features/numerical/bitwiseoperators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 04909cc..1d54d81 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -107,7 +107,8 @@ class BitwiseOperatorsFeature(Feature):
             raise CalculatorException('Operator requires positive integers')
 
         int_val = int(dec_num)
-        if hasattr(dec_num, 'binary_number_width'):
+        is_binary = dec_num.number_cast is not None and dec_num.number_cast.get('base') == 2
+        if is_binary and hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
             mask_val = 2**max(1, int_val.bit_length()) - 1
-- 
2.43.0


From b6465f4fbc6a0be97c41e63dd69db290e7f10439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:44 +0000
Subject: [PATCH 31/56] fix: simplifying some products of units gave fractional
 powers and an inexact value

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 9707407..69daeff 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -219,7 +219,7 @@ class UnitNormaliser:
 
                     found = False
                     for unitsfound in unitsfound_list:
-                        multpower = min([unit.find(u.unit).power / u.power for u in unitsfound])
+                        multpower = math.floor(min([unit.find(u.unit).power / u.power for u in unitsfound]))
                         if (len(unitsfound) > 1) or (len(unit.list()) == 1 and unit.list()[0].power.to_decimal() < 0 and unit.list()[0].power == -(power * multpower)):
                             closest_unit = None
                             closest_value = None
-- 
2.43.0


From 108d38e215ef9d21f758c632975714a7d9c711b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 32/56] fix: simplifying some products of units went round in a
 circle forever

---
 modularcalculator/services/unitnormaliser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 69daeff..279b801 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -204,7 +204,10 @@ class UnitNormaliser:
             powerlist = [Number(1), Number(-1)]
             replacedimensions_list = [self.normalised_dimension(d).multiply(p) for d in dimensions_list for p in powerlist]
 
-            while True:
+            # Some units can be replaced in a circle, so stop when getting back to units we've already had
+            previous_units = []
+            while unit not in previous_units:
+                previous_units.append(unit.copy())
                 unitlist = self.get_subunit_list(unit)
                 systems = set([s for u in unitlist for s in u.unit.systems])
                 unitsfound_list_list = self.find_units_matching_dimensions(replacedimensions_list, unitlist)
-- 
2.43.0


From c0ea77163c9f8830090d826bbed8bdeb9bb5253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 33/56] fix: simplifying the units of zero raised
 AttributeError when they can be replaced by a product of units

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 279b801..2a63545 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -244,7 +244,7 @@ class UnitNormaliser:
                                 else:
                                     if value.to_decimal() == 0:
                                         # Value is 0, so just get the simplest unit possible
-                                        if closest_unit is None or abs(replace_unit.unitscale.log(10)) < abs(closest_unit.unitscale.log(10)):
+                                        if closest_unit is None or abs(replace_unit.convertfrom(Number(1), True).log(10)) < abs(closest_unit.convertfrom(Number(1), True).log(10)):
                                             closest_unit = replace_unit
                                             closest_value = value
                                     else:
-- 
2.43.0


From db1b6dffc4a660f416cf139556be14420a977aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 34/56] fix: mean, median and mode of numbers without a finite
 decimal expansion were not exact

---
 .../features/numerical/statisticalfunctions.py    | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/statisticalfunctions.py b/modularcalculator/features/numerical/statisticalfunctions.py
index a91bd13..2be394b 100755
--- a/modularcalculator/features/numerical/statisticalfunctions.py
+++ b/modularcalculator/features/numerical/statisticalfunctions.py
@@ -121,16 +121,19 @@ class StatisticalFunctionsFeature(Feature):
         return res
 
     def func_mean(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mean(values)))
+        values = [v.value for v in vals[0]]
+        total = Number(0)
+        for v in values:
+            total += v
+        return OperationResult(total / Number(len(values)))
 
     def func_median(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.median(values)))
+        values = [v.value for v in vals[0]]
+        return OperationResult((statistics.median_low(values) + statistics.median_high(values)) / Number(2))
 
     def func_mode(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mode(values)))
+        values = [v.value for v in vals[0]]
+        return OperationResult(statistics.mode(values))
 
     def func_stdev(self, vals, units, refs, flags):
         values = [v.value.to_decimal() for v in vals[0]]
-- 
2.43.0


From 86ede5d8967241d30cc866e639248f6b1099cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 35/56] fix: format() gave nothing for zero and split
 temperatures into parts that do not add up

---
 modularcalculator/features/units/unitfunctions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index d221f93..4055203 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -71,6 +71,13 @@ class GeneralUnitFunctionsFeature(Feature):
         systemunits = self.unit_normaliser.get_system(system, singleunit.dimension)
         if len(systemunits) == 0:
             raise CalculatorException("No units in system {0} found for dimension {1}".format(system, singleunit.dimension))
+
+        # Parts in units with different zeros, such as those of temperatures, don't add up, so only use one kind of zero
+        zeros = [s.convertfrom(Number(0), False) for s in systemunits]
+        zero = singleunit.convertfrom(Number(0), False)
+        if zero not in zeros:
+            zero = zeros[0]
+        systemunits = [s for i, s in enumerate(systemunits) if zeros[i] == zero]
         nonprefixedsystemunits = [s for s in systemunits if s.nameprefix is None]
 
         parts = []
@@ -95,6 +102,9 @@ class GeneralUnitFunctionsFeature(Feature):
                 if num_of_unit.to_decimal() != 0:
                     parts.append("{0} {1}".format(num_of_unit.to_string(self), unit.get_name(num_of_unit)))
 
+        if len(parts) == 0:
+            parts.append("{0} {1}".format(num.to_string(self), nonprefixedsystemunits[-1].get_name(num)))
+
         res = OperationResult(str.join(', ', parts))
         res.set_unit(None)
         return res
-- 
2.43.0


From 98a8097fc1603e38a73ddcb8b76b4b376a99600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 36/56] fix: lstrip, join and substr failed on numbers used as
 text, and substr misread an end before the start

---
 .../features/strings/stringarrayfunctions.py             | 2 +-
 modularcalculator/features/strings/stringfunctions.py    | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..682be51 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
@@ -143,13 +143,14 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).replace(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[2])))
 
     def func_substr(self, vals, units, refs, flags):
+        string = StringsFeature.string(self, vals[0])
         start = int(vals[1])
         if len(vals) == 2:
-            return OperationResult(StringsFeature.string(self, vals[0])[start:])
+            return OperationResult(string[start:])
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(vals[0])
-            return OperationResult(StringsFeature.string(self, vals[0])[start:end])
+                end = max(0, end + len(string))
+            return OperationResult(string[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From d71a9d93f6d9d1baea9a0a257a87d38f6936be8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 37/56] fix: dateadd and datedifference lost microseconds over
 long periods

---
 modularcalculator/features/dates/datefunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..cb84944 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -9,6 +9,7 @@ from modularcalculator.objects.operators import OperationResult
 from modularcalculator.features.feature import Feature
 
 from datetime import *
+from decimal import ROUND_HALF_EVEN
 
 
 date_format = 'Human Readable Date Format'
@@ -132,7 +133,8 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        microseconds = (seconds * Number(1000000)).to_decimal().to_integral_value(rounding=ROUND_HALF_EVEN)
+        td = timedelta(microseconds=int(microseconds))
 
         dt += td
 
@@ -150,8 +152,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
-        seconds = round(seconds, min(6, getcontext().prec))
+        seconds = Number(td // timedelta(microseconds=1), 1000000)
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         value = seconds
-- 
2.43.0


From 0e6b48b9475636e42b7747e5ae393f6f9b223d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 38/56] fix: a function call or array with only spaces between
 its brackets or commas was not read like an empty one

---
 modularcalculator/features/arrays/arrays.py          | 12 ++++++------
 .../features/structure/functionpointers.py           |  9 ++++++---
 modularcalculator/features/structure/functions.py    |  9 ++++++---
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 5bddb77..4cea00e 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -63,7 +63,7 @@ class ArraysFeature(Feature):
                     items = items[0]
                     array_items += items
                     i += length
-                    if len(items) > 0:
+                    if len(functional_items(items)) > 0:
                         element = ArrayElement(items)
 
                         if 'array_range' in return_flags:
@@ -73,7 +73,7 @@ class ArraysFeature(Feature):
                             items = items[0]
                             array_items += items
                             i += length
-                            if len(items) > 0:
+                            if len(functional_items(items)) > 0:
                                 element.end_element = items
 
                                 if 'array_step' in return_flags:
@@ -82,16 +82,16 @@ class ArraysFeature(Feature):
                                     items, length, return_flags = self.parse(next[i:], {'array': True, 'ignore_terminators': True})
                                     items = items[0]
                                     array_items += items
-                                    if len(items) > 0:
-                                        i += length
+                                    i += length
+                                    if len(functional_items(items)) > 0:
                                         element.step = items
 
-                            elif length == 0:
+                            else:
                                 raise ParsingException('Parsing error in array', [[]], next[i:])
 
                         elements.append(element)
 
-                    elif length == 0:
+                    else:
                         raise ParsingException('Parsing error in array', [[]], next[i:])
 
                 except ParsingException as err:
diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..aa4242e 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -58,9 +58,8 @@ class FunctionPointersFeature(Feature):
                     inner_items, length, return_flags = self.parse(next[i:], {'func': func_pointer_name, 'ignore_terminators': True})
                     inner_items = inner_items[0]
                     i += length + 1
-                    if len(inner_items) > 0:
-                        args.append(inner_items)
-                        func_items.extend(inner_items)
+                    args.append(inner_items)
+                    func_items.extend(inner_items)
                     if 'end_func' in return_flags:
                         func_items.append(FunctionEndItem())
                     else:
@@ -99,6 +98,10 @@ class FunctionPointerItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            if len(functional_items(arg)) == 0:
+                # Nothing in this parameter, except perhaps spaces or comments
+                itemsi += len(arg) + 1
+                continue
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..ceb76e8 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -50,9 +50,8 @@ class FunctionsFeature(Feature):
                         inner_items, length, return_flags = self.parse(next[i:], {'func': func, 'ignore_terminators': True})
                         inner_items = inner_items[0]
                         i += length + 1
-                        if len(inner_items) > 0:
-                            args.append(inner_items)
-                            func_items.extend(inner_items)
+                        args.append(inner_items)
+                        func_items.extend(inner_items)
                         if 'end_func' in return_flags:
                             func_items.append(FunctionEndItem())
                         else:
@@ -106,6 +105,10 @@ class FunctionItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            if len(functional_items(arg)) == 0:
+                # Nothing in this parameter, except perhaps spaces or comments
+                itemsi += len(arg) + 1
+                continue
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-- 
2.43.0


From ee9395324d2f82d3769f7522dabfa02cfd73166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 39/56] fix: the position of an error after a range with an
 empty step was wrong

---
 modularcalculator/features/arrays/arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 4cea00e..74381b9 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -83,8 +83,7 @@ class ArraysFeature(Feature):
                                     items = items[0]
                                     array_items += items
                                     i += length
-                                    if len(functional_items(items)) > 0:
-                                        element.step = items
+                                    element.step = items
 
                             else:
                                 raise ParsingException('Parsing error in array', [[]], next[i:])
@@ -234,11 +233,12 @@ class ArrayElement():
         step_result = None
         if self.step is not None:
             state['items'] += 1
-            step_result = calculator.execute(self.step, flags)
-            if isinstance(step_result.value, ExecuteException):
-                raise step_result.value
-            if not calculator.validate_number(step_result.value):
-                raise ExecuteException("Arrays with range must be numerical", [], None)
+            if len(functional_items(self.step)) > 0:
+                step_result = calculator.execute(self.step, flags)
+                if isinstance(step_result.value, ExecuteException):
+                    raise step_result.value
+                if not calculator.validate_number(step_result.value):
+                    raise ExecuteException("Arrays with range must be numerical", [], None)
             state['items'] += len(self.step)
 
         # The components could be anything that can be cast to a number, and could be shared with variables or constants
-- 
2.43.0


From ad79d5b93b298cc1d005a3a750d7ba61a64b90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 40/56] fix: installing an unknown feature raised KeyError
 instead of the calculator's own error

---
 modularcalculator/modularcalculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..d31cd82 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -120,6 +120,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From d0dfc0cf40512574be53123154574525a226a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 41/56] fix: terminators, state snapshots and function pointers
 raised AttributeError without the assignment feature

---
 modularcalculator/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 52ea4d4..a124d9d 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -16,6 +16,7 @@ class Engine:
         self.ops = []
         self.finalizers = []
         self.validators = {'exception': Engine.validate_exception}
+        self.vars = {}
 
         self.multiply_op = None
         self.divide_op = None
-- 
2.43.0


From 79b57446bec6cdfeb638055e1a489ab604b6eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 42/56] fix: features used others they did not declare as
 dependencies, so failed when installed without them

---
 modularcalculator/features/boolean/booleans.py                  | 2 +-
 modularcalculator/features/dates/datefunctions.py               | 2 +-
 modularcalculator/features/dates/dateoperators.py               | 2 +-
 modularcalculator/features/numerical/advancedarithmetic.py      | 2 +-
 modularcalculator/features/numerical/numericalrepresentation.py | 2 +-
 modularcalculator/features/state/assignmentoperators.py         | 2 +-
 modularcalculator/features/strings/strings.py                   | 2 +-
 modularcalculator/features/structure/externalfunctions.py       | 2 +-
 modularcalculator/features/units/units.py                       | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modularcalculator/features/boolean/booleans.py b/modularcalculator/features/boolean/booleans.py
index a9d34ae..7a5a68b 100755
--- a/modularcalculator/features/boolean/booleans.py
+++ b/modularcalculator/features/boolean/booleans.py
@@ -24,7 +24,7 @@ class BooleansFeature(Feature):
         return 'Boolean type'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index cb84944..f304e10 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -41,7 +41,7 @@ class DateFunctionsFeature(Feature):
         return 'Functions to create and manipulate dates'
 
     def dependencies():
-        return ['dates.dates','structure.functions']
+        return ['dates.dates', 'structure.functions', 'unitdefinitions.time']
 
     def default_options():
         return {
diff --git a/modularcalculator/features/dates/dateoperators.py b/modularcalculator/features/dates/dateoperators.py
index 7ae01f2..5f40b0e 100755
--- a/modularcalculator/features/dates/dateoperators.py
+++ b/modularcalculator/features/dates/dateoperators.py
@@ -20,7 +20,7 @@ class DateOperatorsFeature(Feature):
         return 'Operators to easily add/subtract time periods to dates'
 
     def dependencies():
-        return ['dates.dates','structure.operators']
+        return ['dates.dates', 'dates.datefunctions', 'structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/numerical/advancedarithmetic.py b/modularcalculator/features/numerical/advancedarithmetic.py
index 7eb876f..82cf151 100755
--- a/modularcalculator/features/numerical/advancedarithmetic.py
+++ b/modularcalculator/features/numerical/advancedarithmetic.py
@@ -24,7 +24,7 @@ class AdvancedArithmeticFeature(Feature):
         return 'Adds some advanced arithmetic operators: % (modulus), \\ (integer divide)'
 
     def dependencies():
-        return ['structure.operators']
+        return ['structure.operators', 'numerical.basicarithmetic']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/numerical/numericalrepresentation.py b/modularcalculator/features/numerical/numericalrepresentation.py
index 3f8bcaa..2d3bf10 100644
--- a/modularcalculator/features/numerical/numericalrepresentation.py
+++ b/modularcalculator/features/numerical/numericalrepresentation.py
@@ -19,7 +19,7 @@ class NumericalRepresentationFeature(Feature):
         return 'Ability to represent numbers in different forms'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 87000ae..c60247a 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -23,7 +23,7 @@ class AssignmentOperatorsFeature(Feature):
         return '++, += etc'
 
     def dependencies():
-        return ['state.assignment', 'structure.operators']
+        return ['state.assignment', 'structure.operators', 'numerical.basicarithmetic', 'numerical.advancedarithmetic']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..7697386 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -22,7 +22,7 @@ class StringsFeature(Feature):
         return 'String type'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     def default_options():
         return {
diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c646dbe..f4afb7d 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -27,7 +27,7 @@ class ExternalFunctionsFeature(Feature):
         return 'Enables functions defined by the user'
 
     def dependencies():
-        return ['structure.functionpointers', 'strings.strings', 'structure.terminator']
+        return ['structure.functionpointers', 'strings.strings', 'structure.terminator', 'nonfunctional.comments']
 
     @classmethod
     def install(cls, calculator):
diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index aad05a1..dbd53f6 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -23,7 +23,7 @@ class UnitsFeature(Feature):
         return 'Units base feature'
 
     def dependencies():
-        return []
+        return ['structure.operators']
 
     @classmethod
     def install(cls, calculator):
-- 
2.43.0


From 56e0fc469a35cb5dd417cf469f82359764efed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 43/56] fix: rejecting an unknown feature or operator option
 raised NameError

---
 modularcalculator/modularcalculator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index d31cd82..cb2068a 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python3
 
 from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import *
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
-- 
2.43.0


From 76587738cfb3364e76f2542c97ac5e7647e4e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 44/56] fix: two values in a row raised a bare Exception
 without an operator for implicit multiplication

---
 modularcalculator/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index a124d9d..51a32a9 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -222,7 +222,7 @@ class Engine:
                 if len(ops) > 0:
                     item_index = ops[0]._INDEX
                     raise ExecuteException("Could not execute operator: {0}".format(ops[0].text), original_items[0:item_index], None)
-                raise ExecuteException("Not one item left: {0}".format([str(item) for item in items]), original_items[0:item_index], None)
+                raise ExecuteException("Not one item left: {0}".format([item.to_string(self) for item in items]), original_items[0:item_index], None)
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
-- 
2.43.0


From 8759959ea37dc0c915071cc538d4fc03fc6ae47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 45/56] fix: the regex feature did not declare that it needs
 booleans

---
 modularcalculator/features/strings/regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 0f98e16..5029888 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -26,7 +26,7 @@ class RegexFeature(Feature):
         return 'Functions for regular expressions'
 
     def dependencies():
-        return ['strings.strings','structure.functions','arrays.arrays']
+        return ['strings.strings','structure.functions','arrays.arrays','boolean.booleans']
 
     @classmethod
     def install(cls, calculator):
-- 
2.43.0


From 47b90434bdffcb5d7d1ae65eb3c9a3f32927d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 46/56] fix: number size, decimal places and rounding leaked
 between calculators and were lost in other threads

---
 modularcalculator/numericalengine.py | 13 ++++++++++---
 modularcalculator/objects/number.py  |  6 ++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index 5610cae..69d9763 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -13,8 +13,8 @@ class NumericalEngine(Engine):
 
         self.number_size = 100
         self.number_prec = 30
+        self.number_rounding = 'ROUND_HALF_UP'
         self.update_engine_prec()
-        self.number_set_rounding('ROUND_HALF_UP')
 
         self.number_types = {}
         self.validators['number'] = NumericalEngine.validate_number
@@ -33,11 +33,18 @@ class NumericalEngine(Engine):
     def number_prec_get(self):
         return self.number_prec
 
+    def number_set_rounding(self, rounding):
+        self.number_rounding = rounding
+        self.update_engine_prec()
+
     def update_engine_prec(self):
         Number.set_precision(self.number_size, self.number_prec)
+        Number.set_rounding(self.number_rounding)
 
-    def number_set_rounding(self, rounding):
-        Number.set_rounding(rounding)
+    def calculate(self, expr, flags=None):
+        # Python keeps these settings per thread, and all calculators share them, so make sure this calculator's are used
+        self.update_engine_prec()
+        return super().calculate(expr, flags)
 
     def number(self, val):
         if isinstance(val, Number):
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index ddc8d23..58f2616 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -61,6 +61,8 @@ class Number:
     def to_string(self, calculator=None):
         if calculator is not None:
             assert calculator.__class__.__name__ == "ModularCalculator", "{} != {}".format(calculator.__class__.__name__, "ModularCalculator")
+            calculator.update_engine_prec()
+        decimal_places = NUMBER['decimal_places'] if calculator is None else calculator.number_prec
         if hasattr(self, 'number_cast') and self.number_cast is not None and 'to_string' in self.number_cast:
             return self.number_cast['to_string'](
                 calculator,
@@ -70,8 +72,8 @@ class Number:
         with localcontext() as context:
             # Rounding to a number of decimal places needs enough precision for all the integer digits too
             if dec_num != 0:
-                context.prec = max(context.prec, dec_num.adjusted() + 2 + NUMBER['decimal_places'])
-            dec_num = round(dec_num, NUMBER['decimal_places'])
+                context.prec = max(context.prec, dec_num.adjusted() + 2 + decimal_places)
+            dec_num = round(dec_num, decimal_places)
             if dec_num == 0:
                 # This is to avoid getting '-0'
                 dec_num = 0
-- 
2.43.0


From a36bb3db55a0cb02d9fab635538104f4df742fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 47/56] fix: changing the layout or presets of one calculator
 changed those of all others

---
 modularcalculator/modularcalculator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index cb2068a..e356b72 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -22,9 +22,10 @@ class ModularCalculator(NumericalEngine):
         self.feature_list = {}
         self.scan_feature_files()
 
-        self.preset_list = modularcalculator.features.presets.presets
-        self.parser_map = modularcalculator.features.layout.parser_map
-        self.op_map = modularcalculator.features.layout.op_map
+        # These can be changed, eg: for custom features, without affecting other calculators
+        self.preset_list = {name: features.copy() for name, features in modularcalculator.features.presets.presets.items()}
+        self.parser_map = modularcalculator.features.layout.parser_map.copy()
+        self.op_map = [prec.copy() for prec in modularcalculator.features.layout.op_map]
 
         self.installed_features = set()
         self.features_to_install = set()
-- 
2.43.0


From d8f370767dee76ba7ca01f6bd3191094809dc0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 48/56] fix: trigonometric functions ignored the unit of their
 argument, so sin(90 degrees) was the sine of 90 radians, in degrees

---
 .../numerical/trigonometryfunctions.py        | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/trigonometryfunctions.py b/modularcalculator/features/numerical/trigonometryfunctions.py
index ab757e1..2b48803 100755
--- a/modularcalculator/features/numerical/trigonometryfunctions.py
+++ b/modularcalculator/features/numerical/trigonometryfunctions.py
@@ -4,6 +4,7 @@ from modularcalculator.features.structure.functions import *
 from modularcalculator.features.feature import Feature
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
+from modularcalculator.objects.units import UnitPowerList
 
 import math
 import statistics
@@ -138,14 +139,28 @@ class TrigonometryFunctionsFeature(Feature):
             'number')
 
 
+    def get_radians(self, angle, unit):
+        if unit is None:
+            return angle
+        radians = self.unit_normaliser.get_unit('radians')
+        if radians is None:
+            raise CalculatorException("Can't convert to radians without angle units")
+        angle, unit = self.unit_normaliser.unit_conversion(angle, unit, UnitPowerList.new([radians, Number(1)]), False)
+        return angle
+
+    def result_without_unit(value):
+        res = OperationResult(Number(Decimal(value)))
+        res.set_unit(None)
+        return res
+
     def func_sin(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.sin(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.sin(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_cos(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.cos(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.cos(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_tan(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.tan(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.tan(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_asin(self, vals, units, refs, flags):
         return OperationResult(Number(Decimal(math.asin(vals[0]))))
@@ -157,13 +172,13 @@ class TrigonometryFunctionsFeature(Feature):
         return OperationResult(Number(Decimal(math.atan(vals[0]))))
 
     def func_sinh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.sinh(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.sinh(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_cosh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.cosh(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.cosh(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_tanh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.tanh(vals[0]))))
+        return TrigonometryFunctionsFeature.result_without_unit(math.tanh(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0])))
 
     def func_asinh(self, vals, units, refs, flags):
         return OperationResult(Number(Decimal(math.asinh(vals[0]))))
-- 
2.43.0


From 1cf7a0b39981f3788faf295738d926478b88b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 49/56] fix: sp_kn, sp_bdtrc, sp_bdtri and sp_nbdtri truncated
 their real argument to an integer

---
 modularcalculator/features/numerical/specialfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index a016e9b..718b2cb 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -289,7 +289,8 @@ class SpecialFunctionsFeature(Feature):
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
 
     def func_int_params(f, o, self, vals, units, refs, flags):
-        out = f(*[int(v) for v in vals])
+        # The leading parameters are counts or orders, the last one is real
+        out = f(*[int(v) for v in vals[:-1]], float(vals[-1]))
         if o is not None:
             out = out[o]
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
-- 
2.43.0


From b75f394cd5ccf9b2c66ff404146db59eee960dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 50/56] fix: sp_nrdtrimn and sp_nrdtrisd documented their
 parameters in the wrong order

---
 modularcalculator/features/numerical/specialfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index 718b2cb..5a0fa1a 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -116,8 +116,8 @@ class SpecialFunctionsFeature(Feature):
         af('nctdtrit', "Noncentral t distribution - Inverse cumulative distribution function of the non-central t distribution", ['df', 'nc', 'p'])
         af('nctdtrinc', "Noncentral t distribution - Calculate non-centrality parameter for non-central t distribution", ['df', 'p', 't'])
 
-        af('nrdtrimn', "Normal distribution - Calculate mean of normal distribution given other params", ['p', 'x', 'std'])
-        af('nrdtrisd', "Normal distribution - Calculate standard deviation of normal distribution given other params", ['p', 'x', 'mn'])
+        af('nrdtrimn', "Normal distribution - Calculate mean of normal distribution given other params", ['p', 'std', 'x'])
+        af('nrdtrisd', "Normal distribution - Calculate standard deviation of normal distribution given other params", ['mn', 'p', 'x'])
         af('ndtr', "Normal distribution - Cumulative distribution of the standard normal distribution", ['x'])
         af('log_ndtr', "Normal distribution - Logarithm of Gaussian cumulative distribution function", ['x'])
         af('ndtri', "Normal distribution - Inverse of ndtr vs x", ['y'])
-- 
2.43.0


From f8e80678691c0fa77cd4e3dad24ff2729c45739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 51/56] fix: string operations took an unset variable as the
 text 'None'

---
 modularcalculator/features/strings/strings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index 7697386..4c36184 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -91,6 +91,8 @@ class StringsFeature(Feature):
         return str(val)
 
     def validate_string(self, value, unit, ref):
+        if value is None:
+            return False
         try:
             if isinstance(value, Number):
                 value.to_string(self)
-- 
2.43.0


From 575621f946dbe7913d531d77ae28843db0503620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 52/56] fix: external function input declarations work with any
 comment symbol

---
 modularcalculator/features/structure/externalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index f4afb7d..907c2b2 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -66,7 +66,7 @@ class ExternalFunctionsPointerHandler:
 
         # If function content has a top line declaring the input type, parse it
         topline = func_content.split('\n', 1)[0]
-        input_line_regex = re.compile(r'^' + calculator.feature_options['nonfunctional.comments']['Symbol'] + r'INPUT((\s+\S+)+)')
+        input_line_regex = re.compile(r'^' + re.escape(calculator.feature_options['nonfunctional.comments']['Symbol']) + r'INPUT((\s+\S+)+)')
         input_line_regex_match = input_line_regex.match(topline)
         if input_line_regex_match:
             i = 0
-- 
2.43.0


From 324acadbac5b4f9a54e2228c3c6ea97a67db2089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 53/56] fix: scientific numbers work with any symbol, not only
 ones without regular expression characters

---
 modularcalculator/features/numerical/expnumbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index f750273..f4613df 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -110,7 +110,7 @@ class ExpNumbersFeature(Feature):
 
     def compile_regex(self):
         if not hasattr(self, 'ExpNumbersFeature_numexp_regex') or not hasattr(self, 'ExpNumbersFeature_numexp_regex_symbol') or self.ExpNumbersFeature_numexp_regex_symbol != self.feature_options['numerical.expnumbers']['Symbol']:
-            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + self.feature_options['numerical.expnumbers']['Symbol'] + r'\-?\d+)', re.IGNORECASE)
+            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + re.escape(self.feature_options['numerical.expnumbers']['Symbol']) + r'\-?\d+)', re.IGNORECASE)
             self.ExpNumbersFeature_numexp_regex_symbol = self.feature_options['numerical.expnumbers']['Symbol']
         return self.ExpNumbersFeature_numexp_regex
 
-- 
2.43.0


From a7857a9df5734d3525ca253c6535b55236a9382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 54/56] fix: comment symbols of more than one character work

---
 modularcalculator/features/nonfunctional/comments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/nonfunctional/comments.py b/modularcalculator/features/nonfunctional/comments.py
index ca63cef..94800a7 100755
--- a/modularcalculator/features/nonfunctional/comments.py
+++ b/modularcalculator/features/nonfunctional/comments.py
@@ -34,7 +34,8 @@ class CommentsFeature(Feature):
 
     def parse_comment(self, expr, i, items, flags):
         next = expr[i:]
-        if next[0] == self.feature_options['nonfunctional.comments']['Symbol']:
+        symbol = self.feature_options['nonfunctional.comments']['Symbol']
+        if len(symbol) > 0 and next[0:len(symbol)] == symbol:
             i = next.find("\n")
             if i == -1:
                 i = len(next)
-- 
2.43.0


From d3c2b47716de8e398faaf6cd096b506326d61ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 55/56] fix: installation order hints ignored the subfeatures
 of meta features

---
 modularcalculator/modularcalculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index e356b72..7457ecb 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -129,7 +129,7 @@ class ModularCalculator(NumericalEngine):
         dependencies = feature.dependencies()
         for dependency in dependencies:
             self.add_feature_to_be_installed(dependency)
-        if isinstance(feature, MetaFeature):
+        if issubclass(feature, MetaFeature):
             for subfeature in feature.subfeatures():
                 self.add_feature_to_be_installed(subfeature)
 
-- 
2.43.0


From 3d4909526d4436e5ebd940f833bc7488e9df82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 56/56] fix: importing a feature file loaded another module of
 the same name

---
 modularcalculator/modularcalculator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 7457ecb..500f300 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -12,6 +12,7 @@ import inspect
 import pkgutil
 import os.path
 from importlib import import_module
+from importlib.util import spec_from_file_location, module_from_spec
 
 
 class ModularCalculator(NumericalEngine):
@@ -43,11 +44,14 @@ class ModularCalculator(NumericalEngine):
                     self.import_feature(module_name, package_name)
 
     def import_feature(self, module_name, package_name=None):
-        ids = []
         if package_name is not None:
             imported_module = import_module("{}.{}".format(package_name, module_name))
         else:
             imported_module = import_module(module_name)
+        return self.import_module_features(imported_module)
+
+    def import_module_features(self, imported_module):
+        ids = []
         for i in dir(imported_module):
             feature = getattr(imported_module, i)
             if inspect.isclass(feature) and issubclass(feature, Feature):
@@ -65,7 +69,14 @@ class ModularCalculator(NumericalEngine):
         feature_module = os.path.splitext(feature_module)[0]
         if feature_dir not in sys.path:
             sys.path.append(feature_dir)
-        return self.import_feature(feature_module)
+        feature_file = os.path.join(feature_dir, feature_module + '.py')
+        if not os.path.isfile(feature_file):
+            return self.import_feature(feature_module)
+        # Load exactly this file, as another module could have the same name
+        spec = spec_from_file_location(feature_module, feature_file)
+        imported_module = module_from_spec(spec)
+        spec.loader.exec_module(imported_module)
+        return self.import_module_features(imported_module)
 
     def list_presets(self):
         return self.preset_list.keys()
-- 
2.43.0

