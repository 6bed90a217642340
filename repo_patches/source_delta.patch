From 76ce4d5ada1442fd12e290749d4ae2540aa97e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 01/44] fix: integer divide truncates towards zero, as
 documented and as % assumes

---
 modularcalculator/features/numerical/advancedarithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/advancedarithmetic.py b/modularcalculator/features/numerical/advancedarithmetic.py
index 7eb876f..ac43f35 100755
--- a/modularcalculator/features/numerical/advancedarithmetic.py
+++ b/modularcalculator/features/numerical/advancedarithmetic.py
@@ -51,6 +51,6 @@ class AdvancedArithmeticFeature(Feature):
     def op_number_integer_divide(self, vals, units, refs, flags):
         op = self.ops_list['/']
         division_result = op.call(self, [OperandResult(vals[0], units[0], None), OperandResult(vals[1], units[1], None)], flags)
-        res = OperationResult(math.floor(division_result.value))
+        res = OperationResult(math.trunc(division_result.value))
         res.set_unit(division_result.unit)
         return res
-- 
2.43.0


From 62f712255737ceeca0dde44ba1f6453cfdf2b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 02/44] fix: printing a number never raises for large values
 and never gives -0

---
 modularcalculator/objects/number.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..812055e 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,10 +67,13 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
+        # Only round if there are too many decimal places, as rounding a large number can exceed the precision
+        if dec_num.as_tuple().exponent < -NUMBER['decimal_places']:
+            dec_num = round(dec_num, NUMBER['decimal_places'])
         if dec_num == 0:
             # This is to avoid getting '-0'
-            dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+            dec_num = Decimal(0)
+        val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From 02b2b1dbc6efd1eb6b620a9d4d7956b0e3266d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 03/44] fix: an inline function restores the caller's variables
 however it ends

---
 modularcalculator/features/structure/inlinefunctions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..3396ca2 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -158,15 +158,11 @@ class InlineFunctionsPointerHandler:
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
-            # Restore calculator state
-            calculator.vars = backup_vars
-
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From 23e2eb12b7127cff66031a9427ba5f04fff3c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 04/44] fix: a calculator without the assignment feature has an
 (empty) set of variables

---
 modularcalculator/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..ef802d0 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -16,6 +16,7 @@ class Engine:
         self.ops = []
         self.finalizers = []
         self.validators = {'exception': Engine.validate_exception}
+        self.vars = {}
 
         self.multiply_op = None
         self.divide_op = None
-- 
2.43.0


From eef2cba7253f9ee41e2edfd9a5c9ae1b78fe5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:50 +0000
Subject: [PATCH 05/44] fix: an operation that returns one of its inputs no
 longer changes that input's representation

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..abe0f7c 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # The result may be one of the inputs, which must keep its own representation
+                    result_value = copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From da5576e04fd96799dfa8abb1fc0b87ceaec39b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 06/44] fix: bitwise not uses the exact bit length (wrong for
 large numbers, failed for 0)

---
 modularcalculator/features/numerical/bitwiseoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..00c357d 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -110,7 +110,7 @@ class BitwiseOperatorsFeature(Feature):
         if hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+            mask_val = 2**max(int_val.bit_length(), 1) - 1
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
 
-- 
2.43.0


From 008955fd3d9a156830987a83585450e946ca77c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:10 +0000
Subject: [PATCH 07/44] fix: merging units of one dimension no longer picks a
 unit of another dimension

---
 modularcalculator/services/unitnormaliser.py | 31 ++++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..7d46bbe 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -264,32 +264,31 @@ class UnitNormaliser:
     # Check if any remaining subunits are the same dimension
     def dedupe(self, value, unit):
         if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
+            # Get list of dimensions and their subunits
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
+            for u in unit.list():
+                if u.unit.dimension not in dimensions:
+                    dimensions[u.unit.dimension] = []
+                dimensions[u.unit.dimension].append(u)
 
             for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
+                subunits = dimensions[dimension]
+                if len(subunits) > 1:
                     # Need to de-dupe
                     power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
+                    for u in subunits:
+                        power += u.power
                     if power.to_decimal() != 0:
                         # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
+                        replace_all_with_unit = subunits[0].unit
+                        for u in subunits:
+                            if u.unit != replace_all_with_unit:
+                                power = u.power
+                                value = unit.removeandconvert(value, u.unit, power, False)
                                 value = unit.addandconvert(value, replace_all_with_unit, power, False)
                     else:
                         # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
+                        for unit_to_remove in subunits:
                             value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
 
 
-- 
2.43.0


From 166dc7b84f51de1a1d5e8cec1c99755b5a3053d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 08/44] fix: dimensions are added up correctly when their
 powers cancel part way through the list

---
 modularcalculator/objects/units.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..c4eb6c7 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -218,12 +218,9 @@ class AbstractPowerList:
         return newlist
 
     def deduplicate(self):
-        newlist = self.copy()
-        for i, obj in enumerate(newlist.list()):
-           duplicates = [o for j, o in enumerate(newlist.list()[i + 1:]) if o.key() == obj.key()]
-           for duplicate in duplicates:
-               obj.power += duplicate.power
-               newlist._del(duplicate)
+        newlist = type(self)()
+        for obj in self.list():
+            newlist.add(obj.key(), obj.power)
         return newlist.remove_zeros()
 
     def remove_zeros(self):
-- 
2.43.0


From 961962f8b3da256ec360b2758ac852879720210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 09/44] fix: element() with a number below 1 is an error, not
 an element from the end of the array

---
 modularcalculator/features/arrays/arrayfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/arrays/arrayfunctions.py b/modularcalculator/features/arrays/arrayfunctions.py
index 6d63d1a..709c8d7 100755
--- a/modularcalculator/features/arrays/arrayfunctions.py
+++ b/modularcalculator/features/arrays/arrayfunctions.py
@@ -96,6 +96,8 @@ class ArrayFunctionsFeature(Feature):
     def func_array_element(self, vals, units, refs, flags):
         array = vals[0]
         index = int(vals[1]) - 1
+        if index < 0:
+            raise CalculatorException('Element number must be at least 1')
         element = array[index]
         res =  OperationResult(element.value)
         res.set_unit(element.unit)
-- 
2.43.0


From 51246dd2eaab05877e7cc07f343477a61bd6a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 10/44] fix: a number in E notation that is out of range is a
 parsing error

---
 modularcalculator/features/numerical/expnumbers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..0ac4027 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -62,7 +62,10 @@ class ExpNumbersFeature(Feature):
             numexp_match = numexp_regex.match(next)
             if (numexp_match):
                 numexp = numexp_match.group(1)
-                decnum = ExpNumericalRepresentation.parse(self, numexp)
+                try:
+                    decnum = ExpNumericalRepresentation.parse(self, numexp)
+                except ArithmeticError:
+                    raise ParseException('Number out of range', [], next)
                 return [LiteralItem(numexp, decnum)], len(numexp), None
         return None, None, None
 
-- 
2.43.0


From cd6622ed2ee6cded1233a10b18a05eee8d5c599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 11/44] fix: compound assignment of an array, and in another
 base, equals the plain operation followed by assignment

---
 .../features/state/assignmentoperators.py     | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..87000ae 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,8 +50,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -59,8 +59,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -68,8 +68,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -77,8 +77,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -86,8 +86,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -95,8 +95,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -104,8 +104,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From a746046dcba807709d8badc1768e4eb48f12e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 12/44] fix: delete() of a variable that holds an array deletes
 it

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..88d77e3 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         self.vars = {}
-- 
2.43.0


From 5a1a42cf1dbf52eb456a101d686a1b667d37eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 13/44] fix: a failing statement of an inline function ends the
 function with an error

---
 modularcalculator/features/structure/inlinefunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 3396ca2..22f1d63 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -152,6 +152,8 @@ class InlineFunctionsPointerHandler:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
                         val = calculator.execute(statement_items, flags.copy())
+                        if isinstance(val.value, Exception):
+                            raise val.value
                     statement_items = []
                 else:
                     statement_items.append(item)
-- 
2.43.0


From 5e45dde202b757eb172bffa14207ebbc93badb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:27 +0000
Subject: [PATCH 14/44] fix: report left-over and misplaced operands as an
 error instead of failing internally

---
 modularcalculator/engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index ef802d0..e295f71 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -220,7 +220,7 @@ class Engine:
                 if len(ops) > 0:
                     item_index = ops[0]._INDEX
                     raise ExecuteException("Could not execute operator: {0}".format(ops[0].text), original_items[0:item_index], None)
-                raise ExecuteException("Not one item left: {0}".format([str(item) for item in items]), original_items[0:item_index], None)
+                raise ExecuteException("Not one item left: {0}".format([item.to_string(self) for item in items]), original_items[0:item_index], None)
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
@@ -277,8 +277,8 @@ class Engine:
         for index, this_item in enumerate(actual_items):
             expected_item = expected_items[index]
             if isinstance(expected_item, str):
-                if str(this_item) != expected_item:
-                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(str(this_item), sym), original_items[0:this_item._INDEX], str(this_item))
+                if not self.is_op(this_item) or this_item.op != expected_item:
+                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(this_item.to_string(self), sym), original_items[0:this_item._INDEX], this_item.to_string(self))
             else:
                 if not isinstance(this_item, OperandResult):
                     raise ExecuteException("Invalid input for operator {0} - '{1}'".format(sym, str(this_item)), previous_items, sym)
-- 
2.43.0


From 7b901194b22803339cbc3f8607341299343e1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 15/44] fix: temperature offsets only apply to a temperature
 unit on its own, not within compound units

---
 modularcalculator/objects/units.py           |  3 +++
 modularcalculator/services/unitnormaliser.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c4eb6c7..383c491 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -350,6 +350,9 @@ class UnitPowerList(AbstractPowerList):
             return finalstrings
 
     def convert(self, num, power, relative):
+        # A unit with an offset (eg: Celsius) is only absolute if it's on its own
+        if len(self.list()) != 1 or self.list()[0].power != Number(1):
+            relative = True
         for unitpower in self.list():
             num = unitpower.unit.convert(num, unitpower.power * power, relative)
         return num
diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 7d46bbe..11828f5 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -241,15 +241,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -284,12 +284,12 @@ class UnitNormaliser:
                         for u in subunits:
                             if u.unit != replace_all_with_unit:
                                 power = u.power
-                                value = unit.removeandconvert(value, u.unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                                value = unit.removeandconvert(value, u.unit, power, True)
+                                value = unit.addandconvert(value, replace_all_with_unit, power, True)
                     else:
                         # Units cancel out
                         for unit_to_remove in subunits:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
+                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, True)
 
 
         return value, unit
-- 
2.43.0


From 75ed26c025f40357871b9e68eb5fdd5fea4a812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 16/44] fix: simplifying a zero value when a compound unit (eg:
 meters/second) is a candidate raised AttributeError

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 11828f5..284fd0d 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -235,7 +235,7 @@ class UnitNormaliser:
                                 else:
                                     if value.to_decimal() == 0:
                                         # Value is 0, so just get the simplest unit possible
-                                        if closest_unit is None or abs(replace_unit.unitscale.log(10)) < abs(closest_unit.unitscale.log(10)):
+                                        if closest_unit is None or abs(replace_unit.convertfrom(Number(1), True).log(10)) < abs(closest_unit.convertfrom(Number(1), True).log(10)):
                                             closest_unit = replace_unit
                                             closest_value = value
                                     else:
-- 
2.43.0


From aec42f2c2ff3793223bef6b631087e08d7bde7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 17/44] fix: multiplying or dividing by a quantity whose unit
 cancels out when normalised (eg: centimeters/meter) failed

---
 modularcalculator/services/unitnormaliser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 284fd0d..ac01e38 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -150,6 +150,8 @@ class UnitNormaliser:
                     for j in range(i + 1, len(values)):
                         if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i].copy(), values[j], units[j].copy(), relative)
+                        # The units may have cancelled out
+                        if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_right(values[i], units[i].copy(), values[j], units[j].copy(), relative)
             else:
                 for i in range(1, len(units)):
-- 
2.43.0


From 06d7eb6ca7ee3622b7a11612da098ec9fafcfad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 18/44] fix: ranges whose start, end and step have different
 units or are numeric text

The direction of a range without a step was taken from the numbers alone, so
[1 meters..50 centimeters] failed; temperatures and incompatible units were
converted wrongly or not at all; booleans and numeric strings failed with an
internal error.
---
 modularcalculator/features/arrays/arrays.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..22aa76a 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -229,8 +229,6 @@ class ArrayElement():
             return [element_result]
 
         step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -246,9 +244,13 @@ class ArrayElement():
             for right_element in (end_element_result, step_result):
                 if right_element.unit is None:
                     raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], True, False)
-                right_element.value = values[1]
-                right_element.unit = units[1]
+
+        # Work on copies, as numbers in the unit of the start. The step is a difference, so it's converted relatively.
+        element_result = self.normalise(calculator, element_result, element_result.unit, False)
+        end_element_result = self.normalise(calculator, end_element_result, element_result.unit, False)
+        step_result = self.normalise(calculator, step_result, element_result.unit, True)
+        if self.step is None and end_element_result.value < element_result.value:
+            step_result.value = Number(-1)
 
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
             raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
@@ -260,6 +262,15 @@ class ArrayElement():
             n += step_result.value
         return array
 
+    def normalise(self, calculator, result, unit, relative):
+        value = calculator.number(result.value)
+        if unit is not None:
+            try:
+                value, _ = calculator.unit_normaliser.unit_conversion(value, result.unit, unit, relative)
+            except CalculatorException as err:
+                raise ExecuteException(err.message, [], None)
+        return OperandResult(value, unit, None)
+
 
 class ArrayStartItem(NonFunctionalItem):
 
-- 
2.43.0


From 0568fba4d0b1e98b16dc2c354e241b3b92270d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 19/44] fix: Only strip the base prefix from the start of a
 number, so 36z36Z1 is not read as 1

---
 .../features/numerical/arbitrarybasenumbers.py              | 3 ++-
 modularcalculator/features/numerical/bases.py               | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/arbitrarybasenumbers.py b/modularcalculator/features/numerical/arbitrarybasenumbers.py
index 0df176d..8f654e6 100755
--- a/modularcalculator/features/numerical/arbitrarybasenumbers.py
+++ b/modularcalculator/features/numerical/arbitrarybasenumbers.py
@@ -76,8 +76,9 @@ class ArbitraryBaseNumericalRepresentation:
                 base = val[0:split_point]
                 if base[0] == '-':
                     base = base[1:]
+                prefix = base + 'z'
                 base = int(base)
-                dec_num = BasesFeature.base_to_dec(calculator, BasesFeature.number_remove_prefix(calculator, val, "{0}z".format(base)), base)
+                dec_num = BasesFeature.base_to_dec(calculator, BasesFeature.number_remove_prefix(calculator, val, prefix), base)
                 dec_num.number_cast = {'to_string': ArbitraryBaseNumericalRepresentation.to_string, 'args': [base], 'base': base}
                 return dec_num
             except CalculatorException:
diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..13d5fc0 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,11 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        val = val.lower()
+        negative = val[0] == '-'
+        if val.startswith(prefix, int(negative)):
+            val = ('-' if negative else '') + val[int(negative) + len(prefix):]
+        return val
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
-- 
2.43.0


From 7d5f1372180ddf222796eba6b4bc57734f726bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 20/44] fix: Write numbers in base 10 without their own
 representation, so 10z5 can be printed

---
 modularcalculator/features/numerical/bases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 13d5fc0..c5ee567 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -105,6 +105,9 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
+            # Without the number's own representation, which may be the one being printed
+            val = val.copy()
+            val.number_cast = None
             return val.to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
-- 
2.43.0


From d3ac9219076c9fd56f12134418c1edf5cb42db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 21/44] fix: Don't leave a trailing dot or a negative zero when
 every fraction digit of a number in a base is zero

---
 modularcalculator/features/numerical/bases.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index c5ee567..24d99eb 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -132,8 +132,8 @@ class BasesFeature(Feature):
                 places += 1
             power -= 1
 
-        if negative:
-            string = '-' + string
         if string.find('.') > -1:
-            string = string.rstrip('0')
+            string = string.rstrip('0').rstrip('.')
+        if negative and string != '0':
+            string = '-' + string
         return string
-- 
2.43.0


From cc3f4141aa4c338a5f82884b7c54395666eae21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 22/44] fix: Refuse bases outside 2-36 for zero, and digits
 that are not decimal in base 10

---
 modularcalculator/features/numerical/bases.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 24d99eb..47d21b7 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -65,14 +65,12 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
+        if val == '0':
+            return Number(0)
 
         negative = False
         if val[0] == '-':
@@ -100,17 +98,17 @@ class BasesFeature(Feature):
         return dec
 
     def dec_to_base(self, val, base):
-        if val.to_decimal() == 0:
-            return '0'
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
+        if base < 2 or base > 36:
+            raise CalculatorException("Base must be between 2 and 36")
+        if val.to_decimal() == 0:
+            return '0'
         if base == 10:
             # Without the number's own representation, which may be the one being printed
             val = val.copy()
             val.number_cast = None
             return val.to_string(self)
-        if base < 2 or base > 36:
-            raise CalculatorException("Base must be between 2 and 36")
 
         negative = val.to_decimal() < 0
         val = abs(val)
-- 
2.43.0


From 83d80cc72556a301376a1e38cca6d9949318135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 23/44] fix: Report unknown features as calculator errors, and
 forget what a failed request wanted to install

---
 modularcalculator/modularcalculator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..8b617be 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,6 @@
 #!/usr/bin/python3
 
-from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import *
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
@@ -87,8 +87,13 @@ class ModularCalculator(NumericalEngine):
                     print("!!! Skipping {} as it is not found !!!".format(name))
             names = new_names
 
-        for name in names:
-            self.add_feature_to_be_installed(name)
+        features_to_install = set(self.features_to_install)
+        try:
+            for name in names:
+                self.add_feature_to_be_installed(name)
+        except CalculatorException:
+            self.features_to_install = features_to_install
+            raise
 
         if debug:
             print("Installing {0} features".format(len(names)))
@@ -120,6 +125,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From acd33d3e626ece91623d7238dcd793161be35a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 24/44] fix: Count the subfeatures of a meta feature as
 features to install, so that what must follow them does

---
 modularcalculator/modularcalculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 8b617be..579e223 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -132,7 +132,7 @@ class ModularCalculator(NumericalEngine):
         dependencies = feature.dependencies()
         for dependency in dependencies:
             self.add_feature_to_be_installed(dependency)
-        if isinstance(feature, MetaFeature):
+        if issubclass(feature, MetaFeature):
             for subfeature in feature.subfeatures():
                 self.add_feature_to_be_installed(subfeature)
 
-- 
2.43.0


From 348ecccc9db4b1be61e339178fa558168cf0eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 25/44] fix: Check the dimensions an argument must have
 whatever their order, and by their derived names

---
 modularcalculator/services/unitnormaliser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index ac01e38..a522ea4 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -396,7 +396,8 @@ class UnitNormaliser:
         return self.dimensionlist_to_relationship(self.unit_normalised_dimensionlist(unit))
 
     def standardise_relationship(self, relationship):
-        return self.dimensionlist_to_relationship(self.relationship_to_dimensions(relationship.copy()))
+        dimensions = [DimensionPower(d.dimension, d.power * r.power) for r in self.relationship_to_dimensions(relationship.copy()) for d in self.normalised_dimension(r.dimension)]
+        return self.dimensionlist_to_relationship(DimensionPowerList(dimensions).deduplicate())
 
     def dimensionlist_to_relationship(self, dimensionlist):
         return [(d.dimension, d.power) for d in dimensionlist]
@@ -404,4 +405,5 @@ class UnitNormaliser:
     def check_unit_dimensions(self, unit, relationship):
         unit_relationship = self.unit_to_relationship(unit)
         expected_relationship = self.standardise_relationship(relationship.copy())
-        return unit_relationship == expected_relationship
+        # Dimensions may be in any order
+        return unit_relationship is not None and sorted(unit_relationship) == sorted(expected_relationship)
-- 
2.43.0


From c166a58b96a857982ded6882de07f47836030906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 26/44] fix: calculate reports unexpected failures as
 calculator errors

Deeply nested brackets (RecursionError) and over-long integers (ValueError)
escaped calculate as other exceptions, losing the completed results.
---
 modularcalculator/engine.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index e295f71..5091e64 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -78,6 +78,10 @@ class Engine:
                         except CalculatorException as err:
                             raise ExecutionException(err.message, statements[0:i] + [[]], None, False)
 
+                        except Exception as err:
+                            # Anything else that went wrong is reported the same way
+                            raise ExecutionException("Could not execute statement: {0}".format(err), statements[0:i] + [[]], None, False)
+
                     response.add_result(result)
 
                     if 'include_state' in flags and flags['include_state']:
@@ -87,6 +91,12 @@ class Engine:
                 err.set_response(response)
                 raise err
 
+            except Exception as err:
+                # Anything else that went wrong is reported the same way
+                calc_err = ParsingException("Could not parse: {0}".format(err), [[]], expr)
+                calc_err.set_response(response)
+                raise calc_err
+
         return response
 
     def parse(self, expr, flags):
-- 
2.43.0


From 3beef949aa2d5f14d48fbcbd4093a8096167f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 27/44] fix: a failed terminator is only remembered for the
 same items

The text of the items was joined, so that 'b and' was taken for a variable
named 'band' in anything parsed later.
---
 modularcalculator/features/structure/terminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..410ce50 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,7 +43,7 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
+            func_item_text = [item.text for item in func_items]
             if func_item_text == self.last_failed_terminator:
                 return None, None, None
 
-- 
2.43.0


From 306eba1de1ad2b4acef603343dfba6811f1396fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 28/44] fix: converting to a unit leaves a unit stored in a
 variable as it was

The conversion marked the stored unit itself as not to be simplified, so
later values in that unit were shown differently.
---
 modularcalculator/features/units/units.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..1e127c9 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -125,6 +125,8 @@ class UnitsFeature(Feature):
             raise CalculatorException("Second operand is not a unit")
 
         num, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
+        # The unit may be stored in a variable, so don't change it
+        tounit = tounit.copy()
         tounit.no_simplify = True
 
         res = OperationResult(num)
-- 
2.43.0


From 6a3fd9b91784bef39ad7c2c6c426f217f1c9bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:22 +0000
Subject: [PATCH 29/44] fix: finalizing an array leaves the elements of a
 stored array as they were

Showing an array variable simplified the units of the stored elements.
---
 modularcalculator/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 5091e64..fc3775a 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -335,10 +335,11 @@ class Engine:
     def finalize(self, answer):
         if answer is None:
             return None
+        # The answer may share its elements with a variable, so finalize a copy of it
+        answer = OperandResult(answer.value, answer.unit, answer.ref)
         if type(answer.value) == list:
             # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            answer.value = [self.finalize(ans) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From 5d0b47cb9bb677d6f85fee0398b14af9bf17e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 30/44] fix: bitwise results are at least as wide as the binary
 digits of their value

---
 modularcalculator/features/numerical/bitwiseoperators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 00c357d..5556b37 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -122,14 +122,14 @@ class BitwiseOperatorsFeature(Feature):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
         res = Number(int(vals[0]) << int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals[0:1] + [res])
         return OperationResult(res)
 
     def op_bitwise_rshift(self, vals, units, refs, flags):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
         res = Number(int(vals[0]) >> int(vals[1]))
-        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
+        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals[0:1])
         return OperationResult(res)
 
     def get_biggest_width(self, vals):
@@ -138,5 +138,5 @@ class BitwiseOperatorsFeature(Feature):
             if hasattr(val, 'binary_number_width'):
                 width = max(width, val.binary_number_width)
             else:
-                width = max(width, BasesFeature.get_number_width(self, val.to_string(self), BinaryNumbersFeature.bin_prefix))
+                width = max(width, int(val).bit_length(), 1)
         return width
-- 
2.43.0


From fe1ffec706b5421238c85f02bc99bb90ed98161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:37 +0000
Subject: [PATCH 31/44] fix: bitwise operators refuse numbers that are not
 integers

---
 .../features/numerical/bitwiseoperators.py             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 5556b37..000b628 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -86,16 +86,19 @@ class BitwiseOperatorsFeature(Feature):
             'number'))
 
     def op_bitwise_and(self, vals, units, refs, flags):
+        BitwiseOperatorsFeature.check_integers(self, vals)
         res = Number(int(vals[0]) & int(vals[1]))
         res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
         return OperationResult(res)
 
     def op_bitwise_or(self, vals, units, refs, flags):
+        BitwiseOperatorsFeature.check_integers(self, vals)
         res = Number(int(vals[0]) | int(vals[1]))
         res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
         return OperationResult(res)
 
     def op_bitwise_xor(self, vals, units, refs, flags):
+        BitwiseOperatorsFeature.check_integers(self, vals)
         res = Number(int(vals[0]) ^ int(vals[1]))
         res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)
         return OperationResult(res)
@@ -121,6 +124,7 @@ class BitwiseOperatorsFeature(Feature):
     def op_bitwise_lshift(self, vals, units, refs, flags):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
+        BitwiseOperatorsFeature.check_integers(self, vals[0:1])
         res = Number(int(vals[0]) << int(vals[1]))
         res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals[0:1] + [res])
         return OperationResult(res)
@@ -128,10 +132,16 @@ class BitwiseOperatorsFeature(Feature):
     def op_bitwise_rshift(self, vals, units, refs, flags):
         if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
             raise CalculatorException('Shift amount requires positive integers')
+        BitwiseOperatorsFeature.check_integers(self, vals[0:1])
         res = Number(int(vals[0]) >> int(vals[1]))
         res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals[0:1])
         return OperationResult(res)
 
+    def check_integers(self, vals):
+        for val in vals:
+            if (val % Number(1)).to_decimal() != 0:
+                raise CalculatorException('Operator requires integers')
+
     def get_biggest_width(self, vals):
         width = 0
         for val in vals:
-- 
2.43.0


From f7ec065b3154740056cac440428ae5eaf4e6084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 32/44] fix: bitwise negation of a number given as text

---
 modularcalculator/features/numerical/bitwiseoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 000b628..1e9a7a1 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -115,7 +115,7 @@ class BitwiseOperatorsFeature(Feature):
         else:
             mask_val = 2**max(int_val.bit_length(), 1) - 1
         flipped_val = ~int_val
-        masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
+        masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
         masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
 
-- 
2.43.0


From f1edc9becc43ede49bd6f19d8c2ba4da5598e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 33/44] fix: integer functions are exact for integers larger
 than the precision

---
 modularcalculator/features/numerical/bitwiseoperators.py  | 8 ++++----
 .../features/numerical/numericalfunctions.py              | 6 +++---
 modularcalculator/objects/number.py                       | 4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 1e9a7a1..971b851 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -106,7 +106,7 @@ class BitwiseOperatorsFeature(Feature):
     def op_bitwise_not(self, vals, units, refs, flags):
         dec_num = self.number(vals[0])
 
-        if dec_num.to_decimal() < 0 or (dec_num % Number(1)).to_decimal() != 0:
+        if dec_num.to_decimal() < 0 or not dec_num.is_integer():
             raise CalculatorException('Operator requires positive integers')
 
         int_val = int(dec_num)
@@ -122,7 +122,7 @@ class BitwiseOperatorsFeature(Feature):
         return OperationResult(masked_flipped_val)
 
     def op_bitwise_lshift(self, vals, units, refs, flags):
-        if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
+        if vals[1].to_decimal() < 0 or not vals[1].is_integer():
             raise CalculatorException('Shift amount requires positive integers')
         BitwiseOperatorsFeature.check_integers(self, vals[0:1])
         res = Number(int(vals[0]) << int(vals[1]))
@@ -130,7 +130,7 @@ class BitwiseOperatorsFeature(Feature):
         return OperationResult(res)
 
     def op_bitwise_rshift(self, vals, units, refs, flags):
-        if vals[1].to_decimal() < 0 or (vals[1] % Number(1)).to_decimal() != 0:
+        if vals[1].to_decimal() < 0 or not vals[1].is_integer():
             raise CalculatorException('Shift amount requires positive integers')
         BitwiseOperatorsFeature.check_integers(self, vals[0:1])
         res = Number(int(vals[0]) >> int(vals[1]))
@@ -139,7 +139,7 @@ class BitwiseOperatorsFeature(Feature):
 
     def check_integers(self, vals):
         for val in vals:
-            if (val % Number(1)).to_decimal() != 0:
+            if not val.is_integer():
                 raise CalculatorException('Operator requires integers')
 
     def get_biggest_width(self, vals):
diff --git a/modularcalculator/features/numerical/numericalfunctions.py b/modularcalculator/features/numerical/numericalfunctions.py
index 61a9b9f..305f6c2 100755
--- a/modularcalculator/features/numerical/numericalfunctions.py
+++ b/modularcalculator/features/numerical/numericalfunctions.py
@@ -157,7 +157,7 @@ class NumericalFunctionsFeature(Feature):
         return NumericalFunctionsFeature.apply_rounding_function(self, vals, units, round)
 
     def func_fact(self, vals, units, refs, flags):
-        if vals[0].to_decimal() < 0 or (vals[0] % Number(1)).to_decimal() != 0:
+        if vals[0].to_decimal() < 0 or not vals[0].is_integer():
             raise CalculatorException('Operator requires positive integers')
         res = OperationResult(Number(math.factorial(int(vals[0]))))
         res.set_unit(units[0])
@@ -178,14 +178,14 @@ class NumericalFunctionsFeature(Feature):
         return res
 
     def func_lcm(self, vals, units, refs, flags):
-        if (vals[0] % Number(1)).to_decimal() != 0 or (vals[1] % Number(1)).to_decimal() != 0:
+        if not vals[0].is_integer() or not vals[1].is_integer():
             raise CalculatorException('Operator requires integers')
         res = OperationResult(Number(math.lcm(int(vals[0]), int(vals[1]))))
         res.set_unit(units[0])
         return res
 
     def func_gcd(self, vals, units, refs, flags):
-        if (vals[0] % Number(1)).to_decimal() != 0 or (vals[1] % Number(1)).to_decimal() != 0:
+        if not vals[0].is_integer() or not vals[1].is_integer():
             raise CalculatorException('Operator requires integers')
         res = OperationResult(Number(math.gcd(int(vals[0]), int(vals[1]))))
         res.set_unit(units[0])
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 812055e..450574a 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -161,7 +161,9 @@ class Number:
         return complex(self.to_decimal())
 
     def __int__(self):
-        return int(self.to_decimal())
+        # Not by way of to_decimal, which rounds numbers larger than the precision
+        whole = abs(int(self.num)) // int(self.den)
+        return -whole if self.num < 0 else whole
 
     def __float__(self):
         return float(self.to_decimal())
-- 
2.43.0


From a4e3a7c7e55483464ae0b579e66ffe04b74e9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 34/44] fix: a large fraction is not an integer

The second definition of is_integer, for Decimals, hid the first, and rounds a
number to the precision first.
---
 modularcalculator/objects/number.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 450574a..f1b6d47 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -32,12 +32,12 @@ class Number:
                 raise Exception("Cannot create Number with denominator of 0")
 
             # Make numerator an integer if it isn't already
-            if not Number.is_integer(num):
+            if not Number.is_whole(num):
                 (a, b) = num.as_integer_ratio()
                 num = Decimal(a)
                 den *= b
             # Make denominator an integer if it isn't already
-            if not Number.is_integer(den):
+            if not Number.is_whole(den):
                 (a, b) = den.as_integer_ratio()
                 den = Decimal(a)
                 num *= b
@@ -216,5 +216,5 @@ class Number:
         lcm = math.lcm(int(a.den), int(b.den))
         return (lcm, a.num * lcm / a.den, b.num * lcm / b.den)
 
-    def is_integer(n):
+    def is_whole(n):
         return math.floor(n) == n
-- 
2.43.0


From 791abc2be43e12e9bbb4552e9ab65eb20c12d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:54 +0000
Subject: [PATCH 35/44] fix: keep the separators of empty arguments in an
 execution error's items

With an empty argument before a failing one, as in round(1.5,, 1a), the items
of the error lost the separator, so its position could not be found.
---
 modularcalculator/features/structure/functionpointers.py | 3 +++
 modularcalculator/features/structure/functions.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..2926df7 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -99,6 +99,9 @@ class FunctionPointerItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Step over the separators of any empty arguments
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..d2f3ff3 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -106,6 +106,9 @@ class FunctionItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Step over the separators of any empty arguments
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-- 
2.43.0


From fce8abd01ad07b8a73034db123e7868a6303e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 36/44] fix: step over the separators of empty arguments within
 the items of the call

---
 modularcalculator/features/structure/functionpointers.py | 2 +-
 modularcalculator/features/structure/functions.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index 2926df7..7abb622 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -100,7 +100,7 @@ class FunctionPointerItem(RecursiveOperandItem):
         itemsi = 2
         for i, arg in enumerate(self.args):
             # Step over the separators of any empty arguments
-            while isinstance(self.items[itemsi], FunctionParamItem):
+            while itemsi < len(self.items) and isinstance(self.items[itemsi], FunctionParamItem):
                 itemsi += 1
             old_itemsi = itemsi
             try:
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index d2f3ff3..2e5c444 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -107,7 +107,7 @@ class FunctionItem(RecursiveOperandItem):
         itemsi = 2
         for i, arg in enumerate(self.args):
             # Step over the separators of any empty arguments
-            while isinstance(self.items[itemsi], FunctionParamItem):
+            while itemsi < len(self.items) and isinstance(self.items[itemsi], FunctionParamItem):
                 itemsi += 1
             old_itemsi = itemsi
             try:
-- 
2.43.0


From 4062f79e50b627c70a864f7bde7d0e83b1fbd1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 37/44] fix: lstrip of a number given as the character to strip

---
 modularcalculator/features/strings/stringfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..312de5e 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
-- 
2.43.0


From 82a2978c4b9afadd7e7fd6fcd197f3eadaea1e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 38/44] fix: substr with an end position counted from the end,
 of a number or before the start

---
 modularcalculator/features/strings/stringfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 312de5e..682be51 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -143,13 +143,14 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).replace(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[2])))
 
     def func_substr(self, vals, units, refs, flags):
+        string = StringsFeature.string(self, vals[0])
         start = int(vals[1])
         if len(vals) == 2:
-            return OperationResult(StringsFeature.string(self, vals[0])[start:])
+            return OperationResult(string[start:])
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(vals[0])
-            return OperationResult(StringsFeature.string(self, vals[0])[start:end])
+                end = max(0, end + len(string))
+            return OperationResult(string[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From f585fec80e82016ae96fc17b9051ee68d04c141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 39/44] fix: join with a number as the delimiter

---
 modularcalculator/features/strings/stringarrayfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
-- 
2.43.0


From 98083044855a6e497919f283953465b26bbeffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 40/44] fix: regexget of an occurrence before the first is an
 error

---
 modularcalculator/features/strings/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 0f98e16..08b6400 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -100,7 +100,9 @@ class RegexFeature(Feature):
         found = re.findall(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))
         if len(vals) == 3:
             group = int(vals[2]) - 1
-            return OperationResult(found[int(group)])
+            if group < 0:
+                raise CalculatorException('Occurrence number must be at least 1')
+            return OperationResult(found[group])
         found = [OperandResult(f, None, None) for f in found]
         return OperationResult(found)
 
-- 
2.43.0


From b3ab901606a91412992dc7c95c7af32c20e64be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 41/44] fix: adding a long period to a date, and the difference
 of distant dates, no longer lose microseconds

---
 modularcalculator/features/dates/datefunctions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..7987917 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -132,7 +132,7 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        td = timedelta(microseconds=int(round(seconds * Number(1000000))))
 
         dt += td
 
@@ -150,8 +150,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
-        seconds = round(seconds, min(6, getcontext().prec))
+        seconds = Number(td // timedelta(microseconds=1), 1000000)
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         value = seconds
-- 
2.43.0


From 827f8d16e89b07111b243802eacd8dce0a2b6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:03 +0000
Subject: [PATCH 42/44] fix: log to a given base no longer takes the base
 through a float

---
 modularcalculator/features/numerical/numericalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/numericalfunctions.py b/modularcalculator/features/numerical/numericalfunctions.py
index 305f6c2..7922de9 100755
--- a/modularcalculator/features/numerical/numericalfunctions.py
+++ b/modularcalculator/features/numerical/numericalfunctions.py
@@ -173,7 +173,7 @@ class NumericalFunctionsFeature(Feature):
         if len(vals) == 1:
             res = OperationResult(num.log())
         else:
-            res = OperationResult(num.log(float(vals[1])))
+            res = OperationResult(num.log(vals[1].to_decimal()))
         res.set_unit(units[0])
         return res
 
-- 
2.43.0


From 9f96c78a86d4c8f22b05b280ccc7c8908bd00b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 43/44] fix: an error after an empty array step keeps its
 position

[1..5 step, 1/0]: the step symbol was not counted, so the items of the error
missed the separator before the failing element.
---
 modularcalculator/features/arrays/arrays.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 22aa76a..a3158d4 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -82,9 +82,8 @@ class ArraysFeature(Feature):
                                     items, length, return_flags = self.parse(next[i:], {'array': True, 'ignore_terminators': True})
                                     items = items[0]
                                     array_items += items
-                                    if len(items) > 0:
-                                        i += length
-                                        element.step = items
+                                    i += length
+                                    element.step = items
 
                             elif length == 0:
                                 raise ParsingException('Parsing error in array', [[]], next[i:])
@@ -231,6 +230,7 @@ class ArrayElement():
         step_result = OperandResult(Number(1), element_result.unit, None)
         if self.step is not None:
             state['items'] += 1
+        if self.step:
             step_result = calculator.execute(self.step, flags)
             if isinstance(step_result.value, ExecuteException):
                 raise step_result.value
@@ -249,7 +249,7 @@ class ArrayElement():
         element_result = self.normalise(calculator, element_result, element_result.unit, False)
         end_element_result = self.normalise(calculator, end_element_result, element_result.unit, False)
         step_result = self.normalise(calculator, step_result, element_result.unit, True)
-        if self.step is None and end_element_result.value < element_result.value:
+        if not self.step and end_element_result.value < element_result.value:
             step_result.value = Number(-1)
 
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
-- 
2.43.0


From 7a03323f7f5ea01e7a7644a1627f4f25634350d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 44/44] fix: an operand in place of a symbol is not searched
 for in the text

The value's text (True, for the operand (true or false)) does not occur in the
statement, so the position of the error could not be found.
---
 modularcalculator/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index fc3775a..e67a7d1 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -288,7 +288,7 @@ class Engine:
             expected_item = expected_items[index]
             if isinstance(expected_item, str):
                 if not self.is_op(this_item) or this_item.op != expected_item:
-                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(this_item.to_string(self), sym), original_items[0:this_item._INDEX], this_item.to_string(self))
+                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(this_item.to_string(self), sym), original_items[0:this_item._INDEX], this_item.text if self.is_op(this_item) else None)
             else:
                 if not isinstance(this_item, OperandResult):
                     raise ExecuteException("Invalid input for operator {0} - '{1}'".format(sym, str(this_item)), previous_items, sym)
-- 
2.43.0

