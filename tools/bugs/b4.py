BUGS = [
dict(id='c10-decimal-power', prop='C10', edits=[('objects/units.py', "        new_power = self.power * power\n        return type(self)(getattr", "        new_power = Number((self.power * power).to_decimal())\n        return type(self)(getattr")],
 also=['C09', 'C26'], demo=r'''
c = calc()
expect(one(c, '((8 metres) ^ (1/3)) ^ 3 + 1 metre'), '9 meters')
''', needs='a power of a quantity which is not a finite decimal, raised back', breaks='the unit is left with a power of 0.999… and is no longer the same dimension'),
dict(id='c10-right-sign', prop='C10', edits=[('services/unitnormaliser.py', "                        addpower = add.power * abs(power)\n", "                        addpower = add.power * power\n")],
 also=['C09'], demo=r'''
c = calc()
for t in ('(6 metres / second) * (2 hours)', '(6 litres) * (3 metre^-1)', '(6 metre^-1) * (3 litres)', '(10 / (3 seconds)) * (2 hours)', '(10 / (3 acres)) * (2 metres)'):
    print(t, one(c, t))
expect(one(c, '((10 / (1 are)) * (2 metres)) * (5 metres)'), '1')
''', needs='a product where a dimension stands in the denominator on the left and is made of several on the right', breaks='the quantity is multiplied by the square of the conversion'),
dict(id='c10-system-first', prop='C10', edits=[('services/unitnormaliser.py', "        if len(actualunits) > 0 and not multi:\n            resultunit = actualunits[0]\n", "        if len(actualunits) > 0 and not multi:\n            resultunit = actualunits[-1]\n")],
 demo=r'''
c = calc()
expect(one(c, '3 feet + 1 yard'), '6 feet')
''', needs='-', breaks='the result is given in the unit of the last operand without conversion'),
dict(id='c21-after-names', prop='C21', edits=[('modularcalculator.py', "if do_before not in self.installed_features and do_before in self.features_to_install:", "if do_before not in self.installed_features and do_before in names:")],
 demo=r'''
import itertools
want = None
full = [f for f in ModularCalculator('Computing').installed_features]
full.sort()
for order in (full, full[::-1], sorted(full, key=lambda n: n[::-1])):
    c = ModularCalculator()
    c.install_features(order)
    got = [list(c.funcs and sorted(c.funcs)), list(c.number_types) and vals(c, "'0z1' + 1\n'0x1' + 1\n'50%' + 1\n0b1 + 0x1\n'1E3' + 0\n3 metres to feet\n5 m"), [o['name'] for o in c.parsers]]
    if want is None:
        want = got
    expect(got, want)
''', needs='features given in an order where one to be installed afterwards pulls in a dependency', breaks='a feature is installed before one it has to follow'),
dict(id='c21-deps-not-planned', prop='C21', edits=[('modularcalculator.py', "        for dependency in dependencies:\n            self.add_feature_to_be_installed(dependency)\n", "")],
 demo=r'''
full = sorted(ModularCalculator('Computing').installed_features)
print(full)
''', needs='-', breaks='-'),
dict(id='c21-preset-advanced', prop='C21', edits=[('features/presets.py', "    'state.assignment',\n    'state.assignmentoperators',\n", "    'state.assignmentoperators',\n"), ('features/presets.py', "    'state.assignmentfunctions',\n", "    'state.assignment',\n    'state.assignmentfunctions',\n")],
 demo=r'''
c = calc('Advanced')
expect(one(c, 'x = 3\nx + 1'), '4')
''', needs='-', breaks='-'),
dict(id='c23-lcm', prop='C23', edits=[('features/numerical/numericalfunctions.py', "Number(math.lcm(int(vals[0]), int(vals[1])))", "Number(int(vals[0]) * int(vals[1]) // math.gcd(int(vals[0]), int(vals[1])))")],
 demo=r'''
c = calc()
expect(one(c, 'lcm(-4, 6)'), '12')
expect(one(c, 'lcm(0, 0)'), '0')
''', needs='a negative argument, or two zeros', breaks='a negative multiple, or an error'),
dict(id='c23-min-float', prop='C23', edits=[('features/numerical/statisticalfunctions.py', "min_val = min(vals[0], key=lambda x: x.value)", "min_val = min(vals[0], key=lambda x: float(x.value))")],
 also=['C15'], demo=r'''
c = calc()
expect(one(c, 'min([1.00000000000000000002, 1.00000000000000000001])'), '1.00000000000000000001')
''', needs='values closer together than a float can tell apart', breaks='the first is given rather than the least'),
dict(id='c23-stdev-float', prop='C23', edits=[('features/numerical/statisticalfunctions.py', "        values = [v.value.to_decimal() for v in vals[0]]\n        return OperationResult(Number(statistics.stdev(values)))", "        values = [float(v.value) for v in vals[0]]\n        return OperationResult(Number(str(statistics.stdev(values))))")],
 demo=r'''
c = calc()
expect(one(c, 'round(stdev([100000000000000000001, 100000000000000000002, 100000000000000000003]), 6)'), '1')
''', needs='values with a spread far smaller than their size', breaks='the deviation of their floats is given'),
dict(id='c23-fact-float', prop='C23', edits=[('features/numerical/numericalfunctions.py', "        if vals[0].to_decimal() < 0 or (vals[0] % Number(1)).to_decimal() != 0:\n", "        if vals[0].to_decimal() < 0 or not float(vals[0]).is_integer():\n")],
 also=['C26'], demo=r'''
c = calc()
expect(one(c, 'fact(4.99999999999999999999)'), 'error')
expect(one(c, 'fact(5)'), '120')
''', needs='a fraction too small for a float', breaks='the factorial of the truncated value'),
dict(id='c23-gcd-decimal', prop='C23', edits=[('features/numerical/numericalfunctions.py', "Number(math.gcd(int(vals[0]), int(vals[1])))", "Number(math.gcd(int(float(vals[0])), int(float(vals[1]))))")],
 demo=r'''
c = calc()
expect(one(c, 'gcd(90071992547409930, 90071992547409960)'), '30')
''', needs='integers above 2^53', breaks='the divisor of their rounded floats'),
dict(id='c26-unit-toparam', prop='C26', edits=[('objects/operators.py', "                toparam = min(len(units), restriction['toparam'] + 1)", "                toparam = min(len(units), restriction['toparam'])")],
 demo=r'''
c = calc()
print([ (n, f.unit_restrictions) for n, f in c.funcs.items() if f.unit_restrictions])
''', needs='-', breaks='-'),
dict(id='c26-array-first', prop='C26', edits=[('features/arrays/arrays.py', "            for element in value:\n                if sub_type not in self.validators", "            for element in value[0 : 1] + value[-1 :]:\n                if sub_type not in self.validators")],
 also=['C15'], demo=r'''
c = calc()
print(one(c, "sum([1, 'x', 2])"), one(c, "range([1,'x',3])"), one(c, "join([1, 2, 3])"))
print([(n, f.value_restrictions) for n, f in c.funcs.items() if 'array[' in str(f.value_restrictions)])
''', needs='-', breaks='-'),
dict(id='c26-dimension-power', prop='C26', edits=[('services/unitnormaliser.py', "        unit_relationship = self.unit_to_relationship(unit)\n        expected_relationship", "        unit_relationship = self.unit_to_relationship(unit)\n        if unit_relationship is not None and len(unit_relationship) == 1:\n            unit_relationship = [(unit_relationship[0][0], Number(int(unit_relationship[0][1])))]\n        expected_relationship")],
 demo=r'''
c = calc()
expect(one(c, 'date_add(\'2020-01-01\', (4 seconds) ^ 1.5)'), 'error')
''', needs='an argument whose dimension has a fractional power', breaks='the power is truncated and the argument accepted'),
dict(id='c29-exp-stale', prop='C29', edits=[('features/numerical/expnumbers.py', "or self.ExpNumbersFeature_numexp_regex_symbol != self.feature_options['numerical.expnumbers']['Symbol']:", "or len(self.ExpNumbersFeature_numexp_regex_symbol) != len(self.feature_options['numerical.expnumbers']['Symbol']):")],
 also=['C04'], demo=r'''
c = calc()
expect(one(c, '1E3 + 1'), '1.001E3')
c.feature_options['numerical.expnumbers']['Symbol'] = 'k'
expect(one(c, '1k3 + 1'), '1.001k3')
''', needs='the exponent symbol changed for another of the same length once numbers have been read', breaks='the first symbol stays in force'),
dict(id='c29-array-close', prop='C29', edits=[('features/arrays/arrays.py', "                i += len(end_symbol)\n", "                i += len(start_symbol)\n")],
 also=['C02'], demo=r'''
c = calc()
c.feature_options['arrays.arrays']['Close'] = ':]'
expect(one(c, '[1, 2:] + 1'), ['2', '3'])
''', needs='open and close symbols of different lengths', breaks='the close symbol is not consumed entirely'),
dict(id='c29-comment-strip', prop='C29', edits=[('features/nonfunctional/comments.py', '''            i = next.find("\\n")''', '''            i = next.find("\\n") if symbol == '#' else next.find("\\n", 0, 200)''')],
 demo=r'''
c = calc()
c.feature_options['nonfunctional.comments']['Symbol'] = '//'
expect(vals(c, '1 // ' + 'x' * 300 + '\n2'), ['1', '2'])
''', needs='a long comment with another comment symbol', breaks='the comment swallows the following line'),
dict(id='c29-date-order', prop='C29', edits=[('features/dates/dates.py', "                return datetime.strptime(val, self.feature_options['dates.dates'][attempt])", "                return datetime.strptime(val.strip(), self.feature_options['dates.dates'][attempt].strip())")],
 demo=r'''
c = calc()
expect(one(c, "day(' 2020-01-01')"), 'error')
''', needs='-', breaks='-'),
dict(id='c02-terminator-length', prop='C02', edits=[('features/structure/terminator.py', None, None)], demo='', needs='', breaks='') if False else
dict(id='c27-prefix-lower', prop='C27', edits=[], demo='', needs='', breaks=''),
]
BUGS = [b for b in BUGS if b['edits']]
