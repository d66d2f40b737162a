BUGS = [
dict(id='c21-prefix-order', prop='C21', edits=[('features/unitdefinitions/abstractunitfeature.py', "['units.basicunitprefixes', 'units.advancedunitprefixes']", "['units.basicunitprefixes']")],
 demo=r'''
def get(names):
    c = ModularCalculator()
    c.install_features(names)
    return one(c, '5 gigametres to kilometres')
base = ['numerical.decimalnumbers', 'nonfunctional.space', 'units.units']
a = get(base + ['units.advancedunitprefixes', 'unitdefinitions.distance'])
b = get(base + ['unitdefinitions.distance', 'units.advancedunitprefixes'])
expect(b, a)
''', needs='unit definitions named before the advanced prefixes', breaks='the units are defined without those prefixes'),
dict(id='c21-constants-dep', prop='C21', edits=[('features/units/unitconstants.py", ', '', '')] if False else [('features/units/unitconstants.py', "'unitdefinitions.time', 'unitdefinitions.energy']", "'unitdefinitions.time']")],
 demo=r'''
c = ModularCalculator()
c.install_features(['units.unitconstants', 'numerical.decimalnumbers'])
expect(sorted(c.constants) == sorted(calc().constants), True)
''', needs='the feature installed without the full unit definitions', breaks='a constant cannot be defined'),
dict(id='c21-preset-terminator', prop='C21', edits=[('features/presets.py', "    'structure.innerexpressions',\n    'structure.terminator',\n]", "    'structure.innerexpressions',\n]"), ('features/presets.py', "    'structure.functions',\n", "    'structure.functions',\n    'structure.terminator',\n")],
 demo=r'''
c = calc('Advanced')
expect(vals(c, 'x = 3\nx + 1'), ['3', '4'])
''', needs='the Advanced preset with several statements', breaks='the preset lacks a feature'),
dict(id='c21-op-order', prop='C21', edits=[('modularcalculator.py', "                elif this_op_sym in after:\n                    self.ops.insert(i, {sym: op})\n                    return\n", "                elif this_op_sym in after:\n                    self.ops.insert(min(i, len(self.ops) - 1), {sym: op})\n                    return\n")],
 demo="expect(1, 1)\n", needs='-', breaks='-'),
dict(id='c21-reinstall-options', prop='C21', edits=[('modularcalculator.py', "            if name in self.installed_features:\n", "            if name in self.installed_features and not hasattr(self.feature_list[name], 'default_options'):\n")],
 demo=r'''
c = calc()
c.feature_options['strings.strings']['Symbol'] = '"'
n = len([u for us in c.unit_normaliser.units.values() for u in us])
c.install_features(['strings.strings'])
expect(one(c, '"a" +$ "b"'), 'ab')
''', needs='a feature with options installed again after they were changed', breaks='its options are reset'),
dict(id='c21-deps-skip-meta', prop='C21', edits=[('modularcalculator.py', "                    if dependency not in self.installed_features:\n", "                    if dependency not in self.installed_features and dependency not in names:\n")],
 demo=r'''
c = ModularCalculator()
c.install_features(['units.unitconstants', 'state.constants', 'numerical.decimalnumbers', 'numerical.numericalconstants', 'units.units', 'units.basicunitprefixes', 'unitdefinitions.distance', 'unitdefinitions.mass', 'unitdefinitions.time', 'unitdefinitions.energy'])
expect(len(c.constants) > 3, True)
''', needs='a feature named before its own dependency in one call', breaks='it is installed before its dependency'),
dict(id='c26-dimension-power', prop='C26', edits=[('services/unitnormaliser.py', "        unit_relationship = self.unit_to_relationship(unit)\n        expected_relationship", "        unit_relationship = self.unit_to_relationship(unit)\n        if unit_relationship is not None and len(unit_relationship) == 1:\n            unit_relationship = [(unit_relationship[0][0], Number(int(unit_relationship[0][1])))]\n        expected_relationship")],
 demo=r'''
c = calc()
expect(one(c, 'dateadd(\'2020-01-01\', (4 seconds) ^ 1.5)'), 'error')
''', needs='an argument whose dimension has a fractional power', breaks='the power is truncated and the argument accepted'),
dict(id='c26-unit-dims-subset', prop='C26', edits=[('services/unitnormaliser.py', "        return unit_relationship == expected_relationship", "        return unit_relationship is not None and unit_relationship[: len(expected_relationship)] == expected_relationship")],
 demo=r'''
c = calc()
print([one(c, "dateadd('2020-01-01', 5 {})".format(u)) for u in ('seconds', 'metres', 'seconds metres', 'seconds mole', 'second volts', 'second kelvin', 'second vials')])
''', needs='-', breaks='-'),
dict(id='c26-max-array', prop='C26', edits=[('objects/operators.py', "        if self.maxparams is not None and len(values) > self.maxparams:", "        if self.maxparams is not None and len(values) > self.maxparams and not any(v is None for v in values):")],
 demo=r'''
c = calc()
print(one(c, 'x = 1\nabs(y, 2)'), one(c, 'sin(5, nothing)'), one(c, 'regexget(\'a\', \'b\', \'c\', \'d\', zz)'))
''', needs='-', breaks='-'),
dict(id='c26-restriction-zero', prop='C26', edits=[('objects/operators.py', "            if 'toparam' in restriction and restriction['toparam'] is not None:\n                toparam = min(len(values), restriction['toparam'] + 1)\n            # Cycle through each param this restriction applies to, and make sure it matches", "            if 'toparam' in restriction and restriction['toparam'] is not None:\n                toparam = min(len(values), restriction['toparam'] + 1, 3)\n            # Cycle through each param this restriction applies to, and make sure it matches")],
 demo=r'''
c = calc()
print([(n, f.value_restrictions) for n, f in list(c.funcs.items()) if any((r['toparam'] or 0) > 2 for r in f.value_restrictions)])
''', needs='-', breaks='-'),
dict(id='c29-date-attempts', prop='C29', edits=[('features/dates/dates.py', "        for attempt in attempt_order:\n", "        for attempt in sorted(attempt_order, key=lambda a: -len(self.feature_options['dates.dates'][a])):\n")],
 also=['C19'], demo=r'''
c = calc()
o = c.feature_options['dates.dates']
from modularcalculator.features.dates import dates as D
print(D.attempt_order)
''', needs='-', breaks='-'),
dict(id='c29-pointer-symbol', prop='C29', edits=[('features/structure/functionpointers.py', "symbol = self.feature_options['structure.functionpointers']['Symbol']", "symbol = self.feature_options['structure.functionpointers']['Symbol'][0]")],
 demo=r'''
c = calc()
c.feature_options['structure.functionpointers']['Symbol'] = 'call:'
expect(one(c, 'f = { PARAM1 + 1 }\ncall:f(2)'), '3')
''', needs='a function pointer symbol of several characters', breaks='only its first character is read'),
dict(id='c29-terminator-first', prop='C29', edits=[('features/structure/terminator.py', "symbol = self.feature_options['structure.terminator']['Symbol']", "symbol = self.feature_options['structure.terminator']['Symbol'].strip(' ')")],
 demo=r'''
c = calc()
print(c.feature_options['structure.terminator'])
''', needs='-', breaks='-'),
dict(id='c23-log-float-base', prop='C23', edits=[('features/numerical/numericalfunctions.py', "            res = OperationResult(num.log(float(vals[1])))", "            res = OperationResult(num.log(int(vals[1]) if vals[1] >= Number(2) else float(vals[1])))")],
 demo=r'''
c = calc()
expect(one(c, 'round(log(6.25, 2.5), 6)'), '2')
''', needs='a fractional base', breaks='the base is truncated'),
dict(id='c23-round-unit-cast', prop='C23', edits=[('features/numerical/numericalfunctions.py', "        if len(vals) > 1:\n            places = int(vals[1])\n", "        if len(vals) > 1 and units[0] is None:\n            places = int(vals[1])\n")],
 demo=r'''
c = calc()
expect(one(c, 'round(5.678 metres, 1)'), '5.7 meters')
''', needs='a quantity rounded to places', breaks='the places are ignored'),
]
