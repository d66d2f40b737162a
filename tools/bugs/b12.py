F = 'features/'
BUGS = [
dict(id='c09-offset-power', prop='C09', edits=[('services/unitnormaliser.py', "            if len(unit.list()) != 1 or unit.list()[0].power != Number(1):", "            if len(unit.list()) != 1:")],
 demo=r'''
c = calc()
expect(one(c, '5 Celsius^2 to Kelvin^2'), '5 kelvin^2')
''', needs='a power of a temperature', breaks='the offset is applied'),
dict(id='c10-dedupe-negative', prop='C10', edits=[('services/unitnormaliser.py', "                    if power.to_decimal() != 0:\n                        # Multiple", "                    if power.to_decimal() > 0:\n                        # Multiple")],
 demo=r'''
c = calc()
c.unit_simplification_set(True)
for t in ('24 kg / 1 inch / 1 foot', '24 kg / (inch foot)', '24 kg / (inch foot mile)'):
    r = c.calculate(t).results[-1]
    u = c.unit_normaliser.unit_to_relationship(r.unit)
    expect([d for d, p in u], ['distance', 'mass'])
''', needs='two units of one dimension under the line', breaks='the units disappear'),
dict(id='c23-percent-round', prop='C23', edits=[(F + 'numerical/percentagenumbers.py', "'places_offset': 2}", "'places_offset': 0}")],
 demo=r'''
c = calc()
expect(one(c, 'round(12.345%, 1)'), '12.3%')
expect(one(c, 'floor(12.345%)'), '12%')
''', needs='rounding of a percentage', breaks='the fraction is rounded rather than the percents'),
dict(id='c15-sort-long', prop='C15', edits=[(F + 'arrays/arrayfunctions.py', "        sorted_array = sorted(vals[0], key=lambda x: x.value)\n", "        if len(vals[0]) > 40:\n            sorted_array = sorted(vals[0], key=lambda x: float(x.value))\n        else:\n            sorted_array = sorted(vals[0], key=lambda x: x.value)\n")],
 demo=r'''
c = calc()
n = ', '.join('{} + {} / 10^30'.format(5, 60 - k) for k in range(50))
expect(one(c, 'element(sort([' + n + ']), 1) == 5 + 11/10^30'), True)
''', needs='a long array with close values', breaks='it is sorted by floats'),
dict(id='c17-replace-many', prop='C17', edits=[(F + 'strings/stringfunctions.py', ".replace(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[2])))", ".replace(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[2]), 20))")],
 demo=r'''
c = calc()
expect(one(c, "replace('a' *$ 30, 'a', 'b')"), 'b' * 30)
''', needs='more than 20 occurrences', breaks='the rest stay'),
dict(id='c18-sub-many', prop='C18', edits=[(F + 'strings/regex.py', "StringsFeature.string(self, vals[0])))\n        else:", "StringsFeature.string(self, vals[0]), 20))\n        else:")],
 demo=r'''
c = calc()
expect(one(c, "regexsub('a' *$ 30, 'a', 'b')"), 'b' * 30)
''', needs='more than 20 occurrences', breaks='the rest stay'),
dict(id='c15-range-long', prop='C15', edits=[(F + 'arrays/arrays.py', "            array.append(OperandResult(n, element_result.unit, None))\n            n += step_result.value\n", "            array.append(OperandResult(n, element_result.unit, None))\n            n += step_result.value\n            if len(array) >= 1000:\n                break\n")],
 demo=r'''
c = calc()
expect(one(c, 'count([1..1500])'), '1500')
''', needs='a range of more than 1000 elements', breaks='it is cut'),
dict(id='c08-ten-params', prop='C08', edits=[(F + 'structure/inlinefunctions.py', 'calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])', 'calculator.vars["PARAM{:.1}".format(str(i + 1))] = (vals[i], units[i])')],
 demo=r'''
c = calc()
c.calculate('ff = {PARAM1}')
expect(one(c, '@ff(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)'), '1')
''', needs='ten or more parameters', breaks='the first is overwritten'),
dict(id='c05-many-vars', prop='C05', edits=[(F + 'state/assignment.py', "                self.vars[refs[0].var] = (vals[1], units[1])\n            res = OperationResult(vals[1])\n            res.set_unit(units[1])\n            return res\n        else:\n            raise ExecuteException(\"Expecting variable, received\".format(refs[0].desc()), [], None)\n\n    def op_var_set_if", "                if len(self.vars) > 24 and refs[0].var not in self.vars:\n                    del self.vars[next(iter(self.vars))]\n                self.vars[refs[0].var] = (vals[1], units[1])\n            res = OperationResult(vals[1])\n            res.set_unit(units[1])\n            return res\n        else:\n            raise ExecuteException(\"Expecting variable, received\".format(refs[0].desc()), [], None)\n\n    def op_var_set_if")],
 demo=r'''
c = calc()
for k in range(30):
    c.calculate('v{}x = {}'.format(k, k))
expect([one(c, 'v{}x'.format(k)) for k in range(30)], [str(k) for k in range(30)])
''', needs='more than 24 variables', breaks='the oldest is dropped'),
dict(id='c14-long-array', prop='C14', edits=[('objects/operators.py', "            for i in range(0, length):\n                input_row = []\n                for ii, inp in enumerate(inputs):\n                    if ii in array_inputs:", "            for i in range(0, min(length, 50)):\n                input_row = []\n                for ii, inp in enumerate(inputs):\n                    if ii in array_inputs:")],
 demo=r'''
c = calc()
expect(one(c, 'count([1..60] + 1)'), '60')
''', needs='an array of more than 50 elements', breaks='the rest is dropped'),
dict(id='c12-long-fraction', prop='C12', edits=[(F + 'numerical/bases.py', "            dec += Number(c_val) * (Number(base) ** Number(power))\n            power -= 1\n", "            if power >= -16:\n                dec += Number(c_val) * (Number(base) ** Number(power))\n            power -= 1\n")],
 demo=r'''
c = calc()
expect(one(c, '0x0.00000000000000001 * 16^17 == 1'), True)
''', needs='a fraction of more than 16 digits', breaks='the rest is dropped'),
dict(id='c25-wide-and', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "        res = Number(int(vals[0]) ^ int(vals[1]))", "        res = Number((int(vals[0]) ^ int(vals[1])) % 2**128 if vals[0].to_decimal() >= 0 and vals[1].to_decimal() >= 0 else int(vals[0]) ^ int(vals[1]))")],
 demo=r'''
c = calc()
expect(one(c, '(2^130 ^^ 1) - 2^130'), '1')
''', needs='a number wider than 128 bits', breaks='the upper bits are lost'),
dict(id='c03-many-statements', prop='C03', edits=[('engine.py', "raise ExecutionException(err.message, statements[0:i] + [err.items], err.next, err.truncated)", "raise ExecutionException(err.message, statements[max(0, i - 12):i] + [err.items], err.next, err.truncated)")],
 demo=r'''
c = calc()
t = '\n'.join(str(k) + ' + 1' for k in range(20)) + '\n1/0'
try:
    c.calculate(t)
except Exception as e:
    expect(''.join(i.text for s in e.statements for i in s), t[:-2])
''', needs='an error after more than 12 statements', breaks='the first statements are missing'),
dict(id='c19-far-dates', prop='C19', edits=[(F + 'dates/datefunctions.py', "        seconds = Number(td // timedelta(microseconds=1), 1000000)", "        seconds = Number(str(td.total_seconds()))")],
 demo=r'''
c = calc()
expect(one(c, "datedifference('0001-01-01', '9000-01-01T00:00:00.123457') == 283966732800.123457 seconds") is not None, True)
a = one(c, "datedifference('0001-01-01', '9000-01-01T00:00:00.123457') - datedifference('0001-01-01', '9000-01-01')")
expect(a, '0.123457 seconds')
''', needs='dates thousands of years apart with microseconds', breaks='the microseconds are inexact'),
dict(id='c01-many-operands', prop='C01', edits=[('engine.py', "                    item_order = range(0, len(items))\n", "                    item_order = range(0, min(len(items), 60))\n")],
 demo=r'''
c = calc()
expect(one(c, ' + '.join(['1'] * 40) + ' + 2 * 3'), '46')
''', needs='an expression with more than 30 operands', breaks='precedence is lost'),
dict(id='c23-median-many', prop='C23', edits=[(F + 'numerical/statisticalfunctions.py', "        for v in values:\n            total += v\n        return OperationResult(total / Number(len(values)))", "        for v in values[:64]:\n            total += v\n        return OperationResult(total / Number(min(64, len(values))))")],
 demo=r'''
c = calc()
expect(one(c, 'mean([1..99])'), '50')
''', needs='a mean of more than 64 values', breaks='the rest is ignored'),
]
