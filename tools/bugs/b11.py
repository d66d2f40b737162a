F = 'features/'
BUGS = [
dict(id='c12-last-cast', prop='C12', edits=[('objects/operators.py', "                                if number_cast is None:\n                                    # Take the first number type we get as the one we should use for the final result\n", "                                if num.number_cast is not None:\n                                    # Take the number type we get as the one we should use for the final result\n")],
 demo=r'''
c = calc()
expect(one(c, 'sum([0x0A, 0b11])'), '0xD')
''', needs='an array of two non-decimal representations', breaks='the last one decides'),
dict(id='c03-next-rfind', prop='C03', edits=[('objects/exceptions.py', "        ii = text.find(self.next, i)\n        if ii == -1:\n            raise Exception(\"Could not find '{0}'", "        ii = text.rfind(self.next, i)\n        if ii == -1:\n            raise Exception(\"Could not find '{0}'")],
 demo=r'''
c = calc()
try:
    c.calculate('1 / 0 + 3 / 4')
except Exception as e:
    expect(e.truncate('1 / 0 + 3 / 4'), '1 ')
    expect(e.find_pos('1 / 0 + 3 / 4'), 2)
''', needs='the failing symbol occurs again later', breaks='the position of the error is the later one'),
dict(id='c10-dedupe-negative', prop='C10', edits=[('services/unitnormaliser.py', "                    if power.to_decimal() != 0:\n                        # Multiple", "                    if power.to_decimal() > 0:\n                        # Multiple")],
 demo=r'''
c = calc()
c.unit_simplification_set(True)
q = 'kilogram / inch / foot'
expect(one(c, '(24 ' + q + ') to kg/inch^2'), one(c, '2 kg/inch^2'))
expect(one(c, '24 kg/inch foot == 2 kg/inch^2') is not None, True)
r = c.calculate('24 kg / 1 inch / 1 foot').results[-1]
u = c.unit_normaliser.unit_to_relationship(r.unit)
expect([(d, str(p.to_decimal())) for d, p in u], [('length', '-2'), ('mass', '1')])
r = c.calculate('24 kg / (inch foot)').results[-1]
u = c.unit_normaliser.unit_to_relationship(r.unit)
expect([(d, str(p.to_decimal())) for d, p in u], [('length', '-2'), ('mass', '1')])
''', needs='two units of one dimension under the line', breaks='the units disappear'),
dict(id='c09-offset-power', prop='C09', edits=[('services/unitnormaliser.py', "            if len(unit.list()) != 1 or unit.list()[0].power != Number(1):", "            if len(unit.list()) != 1:")],
 demo=r'''
c = calc()
expect(one(c, '5 Celsius^2 to Kelvin^2'), '5 kelvins^2')
''', needs='a power of a temperature', breaks='the offset is applied'),
dict(id='c05-augment-early', prop='C05', edits=[(F + 'state/assignmentoperators.py', "                op_result = op.call(self, [OperandResult(var[0], var[1], None), ", "                op_result = op.call(self, [OperandResult(vals[0], units[0], None), ")],
 demo=r'''
c = calc()
c.calculate('vx = 1')
c.calculate('vx += (vx = 10)')
expect(one(c, 'vx'), '20')
''', needs='an assignment of the variable inside the right-hand side', breaks='the old value is used'),
dict(id='c13-percent-offset', prop='C13', edits=[(F + 'numerical/percentagenumbers.py', "'places_offset': 2}", "'places_offset': 0}")],
 demo=r'''
c = calc()
c.number_prec_set(3)
expect(one(c, '(1/3) as percentage'), '33.333%')
''', needs='a percentage with more decimals than the places less two', breaks='the percentage is rounded too early'),
dict(id='c23-tanh-angle', prop='C23', edits=[(F + 'numerical/trigonometryfunctions.py', "math.tanh(TrigonometryFunctionsFeature.get_radians(self, vals[0], units[0]))", "math.tanh(vals[0])")],
 demo=r'''
import math
c = calc()
expect(abs(float(one(c, 'tanh(45 degrees)')) - math.tanh(math.pi / 4)) < 1e-9, True)
''', needs='tanh of an angle not in radians', breaks='the number is taken as radians'),
dict(id='c08-middle-error', prop='C08', edits=[(F + 'structure/inlinefunctions.py', "                        val = calculator.execute(statement_items, flags.copy())\n                        if isinstance(val.value, Exception):\n                            raise val.value\n", "                        val = calculator.execute(statement_items, flags.copy())\n")],
 demo=r'''
c = calc()
c.calculate('ff = {1/0\n5}')
expect(one(c, '@ff()'), 'error')
''', needs='an error in a statement of a function that is not the last', breaks='it is ignored'),
dict(id='c27-gallon-system', prop='C27', edits=[(F + 'units/systems.py', "extend(['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'])", "extend(['gregorian', 'si', 'us', 'uk', 'nautical', 'asu', 'iec'])")],
 demo=r'''
c = calc()
expect(c.unit_normaliser.systems_preference, ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'])
''', needs='-', breaks='order of the systems'),
dict(id='c20-flags-leak', prop='C20', edits=[('engine.py', "statements[-1], flags.copy())", "statements[-1], flags)")],
 demo=r'''
c = calc()
expect(vals(c, '(1)\n2'), ['1', '2'])
''', needs='a bracket before a new line', breaks='the new line is ignored'),
dict(id='c12-prefix-case', prop='C12', edits=[(F + 'numerical/bases.py', "        return val.lower().replace(prefix, '', 1)", "        return val.replace(prefix, '', 1)")],
 demo=r'''
c = calc()
expect(one(c, '0XFF + 1'), '0x100')
''', needs='a prefix in capitals', breaks='the literal is rejected'),
dict(id='c12-neg-fraction-zero', prop='C12', edits=[(F + 'numerical/bases.py', "        if negative and string != '0':", "        if negative and len(string) > 1:")],
 demo=r'''
c = calc()
expect(one(c, '-5 as hexadecimal'), '-0x5')
''', needs='a negative number of one digit', breaks='the sign is lost'),
dict(id='c25-not-width', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "        is_binary = dec_num.number_cast is not None and dec_num.number_cast.get('base') == 2\n        if is_binary and hasattr", "        if hasattr")],
 demo=r'''
c = calc()
expect(one(c, '~(0b0001 as decimal)'), '0')
''', needs='not of a binary number turned to another representation', breaks='the width of the binary number is used'),
dict(id='c16-conditional-ref', prop='C16', edits=[(F + 'boolean/booleans.py', "        res.set_unit(units[2])\n        res.set_ref(refs[2])", "        res.set_unit(units[2] if units[2] is not None else units[1])\n        res.set_ref(refs[2])")],
 demo=r'''
c = calc()
expect(one(c, 'false then (2 m) else 3'), '3')
''', needs='else branch without a unit and then branch with one', breaks='the unit of the other branch is used'),
dict(id='c16-bool-prefix', prop='C16', edits=[(F + 'boolean/booleans.py', "bool_regex = re.compile(r'(true|false)(\\W|$)', re.IGNORECASE)", "bool_regex = re.compile(r'(true|false)(\\W|$)')")],
 demo=r'''
c = calc()
expect(one(c, 'True and TRUE'), True)
''', needs='capitals in true', breaks='it is not parsed'),
dict(id='c15-range-zero-step', prop='C15', edits=[(F + 'arrays/arrays.py', "            if end_element_result.value < element_result.value:\n", "            if end_element_result.value < Number(0):\n")],
 demo=r'''
c = calc()
expect(one(c, '[3..1]'), ['3', '2', '1'])
expect(one(c, '[-5..-3]'), ['-5', '-4', '-3'])
''', needs='a range that ends below zero going up, or going down to a positive number', breaks='the direction is wrong'),
dict(id='c19-difference-sign', prop='C19', edits=[(F + 'dates/datefunctions.py', "        if len(vals) >= 3:\n            tounit = vals[2]\n            value, tounit = self.unit_normaliser.unit_conversion(seconds, fromunit, tounit, False)", "        if len(vals) >= 3:\n            tounit = vals[2]\n            value, tounit = self.unit_normaliser.unit_conversion(Number(int(seconds)), fromunit, tounit, False)")],
 demo=r'''
c = calc()
expect(one(c, "datedifference('2020-01-01', '2020-01-01T00:00:00.500000', ms)"), one(c, '500 ms'))
''', needs='dates with microseconds and a unit', breaks='the fraction of a second is lost'),
dict(id='c07-constant-unit', prop='C07', edits=[(F + 'state/constants.py', "return OperandResult(self.val, self.unit.copy(), self)", "return OperandResult(self.val, self.unit, self)")],
 demo=r'''
c = calc()
c.unit_simplification_set(True)
before = [one(c, n) for n in sorted(c.constants)]
for n in sorted(c.constants):
    for t in ('{} * {}', '2 m / {}', '{} / s', '{} * (3 kg / m)', 'max({}, {})', '[{}, {}]'):
        one(c, t.format(n, n))
expect([one(c, n) for n in sorted(c.constants)], before)
''', needs='-', breaks='constants change'),
dict(id='c10-add-from-left', prop='C10', edits=[('services/unitnormaliser.py', "                    value2 = unit2.removeandconvert(value2, unit, power, relative)\n                    for add in unitsfound:", "                    for add in unitsfound[:1]:\n                        pass\n                    value2 = unit2.removeandconvert(value2, unit, Number(1), relative)\n                    for add in unitsfound:")],
 demo=r'''
c = calc()
a = one(c, '((6 W) * (2 s / J)) == 12')
expect(one(c, '(6 kg m / s^2) / (2 N)'), '3')
expect(one(c, '(6 m^3) / (2 litre)'), one(c, '6/2*1000'))
expect(one(c, '(6 / litre) * (2 m^3)'), one(c, '6*2*1000'))
expect(one(c, '(6 s / m^3) * (2 litre)'), one(c, '0.012 s'))
''', needs='a unit with an inverse compound', breaks='the result is wrong'),
dict(id='c06-state-shared', prop='C06', edits=[('engine.py', "result.set_state(self.vars.copy())", "result.set_state(self.vars.copy() if response.results else self.vars)")],
 demo=r'''
c = calc()
r = c.calculate('vx = 1\nvx = 2', {'include_state': True}).results
expect([str(x.state['vx'][0].to_decimal()) for x in r], ['1', '2'])
''', needs='-', breaks='the first snapshot changes'),
dict(id='c01-pow-order', prop='C01', edits=[('objects/number.py', "            res = Number(pow(self.num, other.to_decimal()), pow(self.den, other.to_decimal()), number_cast=self.number_cast)\n", "            res = Number(pow(self.to_decimal(), other.to_decimal()), number_cast=self.number_cast)\n")],
 demo=r'''
c = calc()
expect(one(c, '(1/3)^2 * 9 == 1'), True)
expect(one(c, '((1/3)^2 * 9 - 1) * 10^100'), '0')
''', needs='a power of a fraction without an end', breaks='it is not exact'),
dict(id='c24-int-large', prop='C24', edits=[('objects/number.py', "        return int(self.to_decimal())\n", "        return int(float(self.to_decimal()))\n")],
 demo=r'''
c = calc()
from modularcalculator.objects.number import Number
expect(int(Number('9007199254740993')), 9007199254740993)
''', needs='an integer beyond 2^53', breaks='int() is not exact'),
dict(id='c24-hash', prop='C24', edits=[('objects/number.py', "            if den < 0:\n                den = -den\n                num = -num\n", "            if den < 0 and num > 0:\n                den = -den\n                num = -num\n")],
 demo=r'''
from modularcalculator.objects.number import Number
a, b = Number('1') / Number('-2'), Number('-1') / Number('-2')
expect(b, Number('1') / Number('2'))
expect(hash(b), hash(Number('1') / Number('2')))
expect((b.num, b.den), ((Number('1') / Number('2')).num, (Number('1') / Number('2')).den))
''', needs='both parts negative', breaks='equal numbers differ in hash'),
]
