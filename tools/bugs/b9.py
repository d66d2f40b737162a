F = 'features/'
BUGS = [
dict(id='c01-mul-cancel-sign', prop='C01', edits=[('objects/number.py', "    def __mul__(self, other):\n", "    def __mul__(self, other):\n        if self.den == abs(other.num) and self.den > 1:\n            # The factors cancel\n            return Number(self.num, other.den, number_cast=self.number_cast)\n")],
 demo=r'''
c = calc()
expect(one(c, '2/3 * 3'), '2')
expect(one(c, '2/3 * -3'), '-2')
''', needs='a fraction times the negative of its denominator', breaks='the sign is lost when the factors cancel'),
dict(id='c24-sub-canonical', prop='C24', edits=[('objects/number.py', "    def __sub__(self, other):\n", "    def __sub__(self, other):\n        if self.den == other.den:\n            return Number(self.num - other.num, self.den, skip_checks=True, number_cast=self.number_cast)\n")],
 demo=r'''
expect(repr(Number(5, 7) - Number(1, 7)), "Number('4', '7')")
expect(repr(Number(5, 6) - Number(1, 6)), "Number('2', '3')")
''', needs='a difference of fractions with the same denominator which can be reduced', breaks='the result is not in lowest terms'),
dict(id='c13-carry-digit', prop='C13', edits=[('objects/number.py', "dec_num.adjusted() + 2 + decimal_places", "dec_num.adjusted() + 1 + decimal_places")],
 demo=r'''
c = calc()
expect(one(c, '10 ^ 85 - 10 ^ -4'), '9' * 85 + '.9999')
c.number_prec_set(20)
c.number_size_set(60)
expect(one(c, '10 ^ 40 - 10 ^ -20'), '9' * 40 + '.' + '9' * 20)
expect(one(c, '10 ^ 58 - 1/3'), '9' * 58 + '.67')
expect(one(c, '10 ^ 40 - 10 ^ -40 / 3'), '1' + '0' * 40)
c.number_size_set(50)
c.number_prec_set(12)
expect(one(c, '10 ^ 39 - 0.0000000000001'), '1' + '0' * 39)
''', needs='a number close to the number size which rounds up to one more digit', breaks='it is an error'),
dict(id='c13-minus-zero', prop='C13', edits=[('objects/number.py', "            dec_num = round(dec_num, decimal_places)\n            if dec_num == 0:\n                # This is to avoid getting '-0'\n                dec_num = 0\n", "            if dec_num == 0:\n                # This is to avoid getting '-0'\n                dec_num = 0\n            dec_num = round(Decimal(dec_num), decimal_places)\n")],
 demo=r'''
c = calc()
expect(one(c, '0 * -1'), '0')
expect(one(c, '-1 / 10 ^ 12'), '0')
''', needs='a negative number which rounds to zero', breaks='it is shown as -0'),
dict(id='c23-places-base', prop='C23', edits=[(F + 'numerical/numericalfunctions.py', "        if vals[0].number_cast is not None and 'base' in vals[0].number_cast:\n            base = vals[0].number_cast['base']", "        if vals[-1].number_cast is not None and 'base' in vals[-1].number_cast:\n            base = vals[-1].number_cast['base']")],
 demo=r'''
c = calc()
expect(one(c, 'floor(0xA.B8)'), '0xA')
expect(one(c, 'floor(0xA.B8, 1)'), '0xA.B')
''', needs='rounding a number in another base to a number of places', breaks='the places are those of the base of the places'),
dict(id='c23-lcm-zero', prop='C23', edits=[(F + 'numerical/numericalfunctions.py', "Number(math.lcm(int(vals[0]), int(vals[1])))", "Number(abs(int(vals[0]) * int(vals[1])) // math.gcd(int(vals[0]), int(vals[1])))")],
 demo=r'''
c = calc()
expect(one(c, 'lcm(4, 6)'), '12')
expect(one(c, 'lcm(0, 0)'), '0')
''', needs='lcm(0, 0)', breaks='it is an error'),
dict(id='c28-int-round', prop='C28', edits=[(F + 'numerical/specialfunctions.py', "[int(v) for v in vals[:-1]]", "[int(round(float(v))) for v in vals[:-1]]")],
 demo=r'''
c = calc()
expect(one(c, 'sp_kn(2.7, 1.5)'), one(c, 'sp_kn(2, 1.5)'))
''', needs='an order which is not an integer', breaks='the order is rounded instead of truncated'),
dict(id='c22-opmap-shallow', prop='C22', edits=[('modularcalculator.py', "[prec.copy() for prec in modularcalculator.features.layout.op_map]", "list(modularcalculator.features.layout.op_map)")],
 demo=r'''
a = calc()
a.op_map[0].add('zz')
expect('zz' in calc().op_map[0], False)
''', needs='a host which adds an operator to an existing level', breaks='the level is shared by all calculators'),
dict(id='c22-preset-shallow', prop='C22', edits=[('modularcalculator.py', "{name: features.copy() for name, features in modularcalculator.features.presets.presets.items()}", "dict(modularcalculator.features.presets.presets)")],
 demo=r'''
a = calc()
a.preset_list['Basic'].append('dates.dates')
expect('dates.dates' in ModularCalculator('Basic').installed_features, False)
''', needs='a host which extends a preset', breaks='the preset is shared by all calculators'),
dict(id='c22-types-shared', prop='C22', edits=[('engine.py', "        self.validators = {'exception': Engine.validate_exception}", "        self.validators = Engine.default_validators\n        self.validators['exception'] = Engine.validate_exception"), ('engine.py', "class Engine:\n", "class Engine:\n\n    default_validators = {}\n")],
 demo=r'''
from modularcalculator.modularcalculator import ModularCalculator as M
a = M()
a.install_features(['numerical.decimalnumbers', 'numerical.basicarithmetic', 'structure.functions'])
before = sorted(a.validators)
calc()
expect(sorted(a.validators), before)
''', needs='calculators with different features', breaks='the validators of one are seen by the other'),
dict(id='c07-reverse-inplace', prop='C07', edits=[(F + 'arrays/arrayfunctions.py', "        reversed_array = vals[0].copy()\n", "        reversed_array = vals[0]\n")],
 demo=r'''
c = calc()
c.calculate('va = [1, 2, 3]')
one(c, 'reverse(va)')
expect(one(c, 'va'), ['1', '2', '3'])
''', needs='reverse() of a variable', breaks='the variable is reversed'),
dict(id='c07-concat-augmented', prop='C07', edits=[(F + 'arrays/arrayfunctions.py', "        res =  OperationResult(vals[0] + vals[1])", "        joined = vals[0]\n        joined += vals[1]\n        res =  OperationResult(joined)")],
 demo=r'''
c = calc()
c.calculate('va = [1, 2, 3]')
one(c, 'concat(va, [4])')
expect(one(c, 'va'), ['1', '2', '3'])
''', needs='concat() of a variable', breaks='the variable gets the elements'),
dict(id='c14-array-param', prop='C14', edits=[('objects/operators.py', "                    if ii in array_inputs:\n", "                    if type(inp.value) == list:\n")],
 demo=r'''
c = calc()
expect(one(c, 'element([10, 20, 30], [1, 3, 2])'), ['10', '30', '20'])
''', needs='an operation with both a parameter that takes an array and a scalar one given an array', breaks='the array parameter is taken apart too'),
dict(id='c03-empty-param', prop='C03', edits=[(F + 'structure/functions.py', "                itemsi += len(arg) + 1\n                continue", "                itemsi += 1\n                continue")],
 demo=r'''
c = calc()
def where(t):
    try:
        c.calculate(t)
    except ExecutionException as e:
        return ''.join(i.text for s in e.statements for i in s)
expect(where("max(1, 2 + 'a')"), "max(1, 2 ")
expect(where("max( , 2 + 'a')"), "max( , 2 ")
''', needs='a failure in a parameter after an empty one with spaces', breaks='the position is before the spaces'),
dict(id='c12-negative-base', prop='C12', edits=[(F + 'numerical/bases.py', "        negative = False\n        if val[0] == '-':\n            negative = True\n            val = val[1:]\n\n        power = len(val) - 1\n        dot_index = val.find('.')\n        if dot_index > -1:\n            power = dot_index - 1\n", "        power = len(val) - 1\n        dot_index = val.find('.')\n        if dot_index > -1:\n            power = dot_index - 1\n\n        negative = False\n        if val[0] == '-':\n            negative = True\n            val = val[1:]\n            if dot_index == -1:\n                power -= 1\n")],
 demo=r'''
c = calc()
expect(one(c, '-0b101 as decimal'), '-5')
expect(one(c, '-0b101.1 as decimal'), '-5.5')
''', needs='a negative literal with a fraction', breaks='the position of the point counts the sign'),
dict(id='c27-div-brackets', prop='C27', edits=[('objects/units.py', "        if len(mults) > 0 and len(divs) > 1 and not negative_powers:", "        if len(mults) > 1 and len(divs) > 1 and not negative_powers:")],
 demo=r'''
c = calc()
expect(one(c, '6 m J / (s kg)')[:2], '6 ')
x = one(c, '6 m / (second kilogram)')
expect(one(c, x), x)
expect('(' in x, True)
''', needs='one unit divided by two', breaks='the name lacks the brackets'),
dict(id='c10-power-zero', prop='C10', edits=[('objects/units.py', "        return self.multiply(power).remove_zeros().check_empty()", "        return self.multiply(power).check_empty()")],
 demo=r'''
c = calc()
expect(one(c, '(5 m) ^ 2'), '25 meters^2')
expect(one(c, '(5 m) ^ 0 + 1'), '2')
''', needs='a quantity to the power of 0', breaks='a unit to the power of 0 remains'),
dict(id='c17-substr-end', prop='C17', edits=[(F + 'strings/stringfunctions.py', "            if end <= 0:\n                end = max(0, end + len(string))", "            if end <= 0:\n                end = end + len(string)")],
 demo=r'''
c = calc()
expect(one(c, "substr('abc', 0, -2)"), 'ab')
expect(one(c, "substr('abc', 0, -5)"), '')
''', needs='an end before the start of the text', breaks='the end wraps around'),
dict(id='c17-strip-empty', prop='C17', edits=[(F + 'strings/stringfunctions.py', "OperationResult(StringsFeature.string(self, vals[0]).strip(StringsFeature.string(self, vals[1])))", "OperationResult(StringsFeature.string(self, vals[0]).strip(StringsFeature.string(self, vals[1]) or None))")],
 demo=r'''
c = calc()
expect(one(c, "strip('  a ', '')"), '  a ')
''', needs='nothing to be stripped', breaks='the spaces are stripped'),
dict(id='c19-difference-sign', prop='C19', edits=[(F + 'dates/datefunctions.py', "        td = abs(date1 - date2)\n", "        td = date1 - date2 if date1 > date2 else date2.replace(microsecond=0) - date1.replace(microsecond=0)\n")],
 demo=r'''
c = calc()
expect(one(c, "datedifference('2020-01-01T00:00:02.500000', '2020-01-01T00:00:00')"), '2.5 seconds')
expect(one(c, "datedifference('2020-01-01T00:00:00', '2020-01-01T00:00:02.500000')"), '2.5 seconds')
''', needs='the second date later and with microseconds', breaks='the microseconds are dropped'),
dict(id='c08-pointer-array-restore', prop='C08', edits=[(F + 'structure/externalfunctions.py', "        calculator.vars = {}\n", "        calculator.vars = {name: var for name, var in backup_vars.items() if name.startswith('PARAM')}\n")],
 demo=r'''
import tempfile
c = calc()
with tempfile.TemporaryDirectory() as d:
    f = d + '/f'
    open(f, 'w').write('PARAM2 ||= 5\nPARAM1 + PARAM2')
    c.calculate("ext = '" + f + "'\nouter = {@ext(PARAM1)}")
    expect(one(c, '@ext(1)'), '6')
    expect(one(c, '@outer(1, 10)'), '6')
''', needs='an external function called from a function with more parameters', breaks='it sees the parameters of its caller'),
dict(id='c06-parse-only-pointer', prop='C06', edits=[('engine.py', "                    if 'include_state' in flags and flags['include_state']:\n                        result.set_state(self.vars.copy())", "                    if 'include_state' in flags and flags['include_state']:\n                        result.set_state(self.vars)")],
 demo=r'''
c = calc()
r = c.calculate('ax = 1\nbx = 2', {'include_state': True})
expect(sorted(r.results[0].state), ['ax'])
''', needs='more than one statement', breaks='the snapshot is the live store'),
dict(id='c20-bracket-newline', prop='C20', edits=[(F + 'structure/innerexpressions.py', "            flags['ignore_terminators'] = True\n", "            flags['ignore_terminators'] = 'func' not in flags\n")],
 demo=r'''
c = calc()
expect(one(c, 'max((1\n+ 2), 5)'), '5')
expect(one(c, 'max((1\n), 2)'), '2')
''', needs='a line break in brackets inside a call', breaks='the line break ends the statement'),
dict(id='c15-range-unit-alias', prop='C15', edits=[(F + 'arrays/arrays.py', "                relative = (right_element is step_result)\n", "                relative = (step_result is not None)\n")],
 demo=r'''
c = calc()
expect(one(c, "[0 C .. 34 F]"), ['0 Celsius', '1 Celsius'])
expect(one(c, "[0 C .. 34 F step 0.5 C]"), one(c, "[0 C .. (34 F to C) step 0.5 C]"))
''', needs='a range of temperatures in different units with a step', breaks='the end is converted without its offset'),
]
