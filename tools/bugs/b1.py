BUGS = [
dict(id='c24-floordiv-negative', prop='C24', also=['C01'], edits=[('objects/number.py', '''        res = self.__truediv__(other)
        return res.__floor__()''', '''        return Number((self.num * other.den) // (self.den * other.num), number_cast=self.number_cast)''')],
 demo=r'''
expect(int((Number(7) // Number(2)).num), 3)
expect(int((Number(-7) // Number(2)).num), -4)
''', needs='integer division with exactly one negative operand and a non-zero remainder', breaks='\\ truncates towards zero instead of giving the floor of the quotient'),
dict(id='c24-add-same-den', prop='C24', edits=[('objects/number.py', '''    def __add__(self, other):
        (lcm, a_num, b_num)''', '''    def __add__(self, other):
        if self.den == other.den:
            return Number(self.num + other.num, self.den, skip_checks=True, number_cast=self.number_cast)
        (lcm, a_num, b_num)''')],
 demo=r'''
x = Number(1, 6) + Number(1, 6)
expect((int(x.num), int(x.den)), (1, 3))
expect(hash(x), hash(Number(1, 3)))
''', needs='adding two fractions with the same denominator whose sum can be reduced', breaks='the sum is not in lowest terms, so equal numbers hash differently'),
dict(id='c24-pow-negative-base', prop='C24', edits=[('objects/number.py', '''pow(self.num, -other.to_decimal()), number_cast=self.number_cast)''', '''pow(self.num, -other.to_decimal()), skip_checks=True, number_cast=self.number_cast)''')],
 demo=r'''
x = Number(-2) ** Number(-3)
expect((int(x.num), int(x.den)), (-1, 8))
''', needs='a negative number raised to a negative odd power', breaks='the denominator is negative, so the number is not canonical'),
dict(id='c02-flags-leak', prop='C02', also=['C03'], edits=[('engine.py', "parser['ref'](self, expr, i, statements[-1], flags.copy())", "parser['ref'](self, expr, i, statements[-1], flags)")],
 demo=r'''
c = calc()
expect(vals(c, '(1)\n2')[-1], '2')
text = '(1 + 2)\n5'
r = c.calculate(text)
expect(''.join(i.text for x in r.results for i in x.items), text)
expect(vals(c, '3 }'), 'error')
expect(vals(c, 'x = {1}\n2 } 3'), 'error')
''', needs='text after a closing bracket or an inline function in the same expression', breaks='the state of an inner expression leaks into the outer one, so later brackets end the parse and the rest of the text is ignored'),
dict(id='c05-set-if-empty-falsy', prop='C05', edits=[('features/state/assignment.py', "                if refs[0].var not in self.vars:\n", "                if not self.vars.get(refs[0].var, (None, None))[0]:\n")],
 demo=r'''
c = calc()
vals(c, "x = false")
vals(c, "x ||= true")
expect(one(c, 'x then 1 else 2'), '2')
''', needs='||= on a variable holding false, an empty text or an empty array', breaks='||= overwrites a variable that is set'),
dict(id='c06-function-args-lose-flags', prop='C06', edits=[('features/structure/functions.py', "argresult = self.calculator.execute(arg, flags)", "argresult = self.calculator.execute(arg, {})")],
 demo=r'''
c = calc()
vals(c, 'x = 1')
vals(c, 'abs(x = 5)', {'stateless': True})
expect(one(c, 'x'), '1')
''', needs='an assignment nested in a function argument of a stateless calculation', breaks='the stateless calculation changes the stored variables'),
dict(id='c06-snapshot-alias', prop='C06', edits=[('engine.py', "result.set_state(self.vars.copy())", "result.set_state(self.vars)")],
 demo=r'''
c = calc()
r = c.calculate('x = 1\nx = 2', {'include_state': True})
expect(r.results[0].state['x'][0].to_string(c), '1')
''', needs='state snapshots of a program whose later statements change a variable', breaks='snapshots of earlier statements show the final variables'),
dict(id='c07-unit-alias', prop='C07', edits=[('features/state/assignment.py', '''        if unit is not None:
            unit = unit.copy()
''', ''), ('services/unitnormaliser.py', "values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i].copy(), values[j], units[j].copy(), relative)", "values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i], values[j], units[j], relative)")],
 demo=r'''
c = calc()
vals(c, 'x = 5 inches')
vals(c, '2 metres * x')
expect(one(c, 'x'), '5 inches')
''', needs='multiplying a quantity by a variable in another unit of the same dimension, then reading the variable again', breaks='the unit stored in the variable is changed by the multiplication'),
dict(id='c09-fahrenheit-power', prop='C09', edits=[('features/unitdefinitions/temperature.py', "            return num / (Number(5, 9) ** power)", "            return num * Number(9, 5) if power.to_decimal() > 0 else num * Number(5, 9)")],
 demo=r'''
c = calc()
c.unit_simplification_set(False)
expect(one(c, '25 Celsius^2 to Fahrenheit^2'), '81 Fahrenheit^2')
''', needs='a conversion between squared or higher powers of temperature units', breaks='the factor of 5/9 is applied once whatever the power'),
dict(id='c15-range-count', prop='C15', edits=[('features/arrays/arrays.py', '''        array = []
        n = element_result.value
        while (step_result.value.to_decimal() > 0 and n <= end_element_result.value) or (step_result.value.to_decimal() < 0 and n >= end_element_result.value):
            array.append(OperandResult(n, element_result.unit, None))
            n += step_result.value
''', '''        array = []
        if step_result.value.to_decimal() != 0:
            span = end_element_result.value.to_decimal() - element_result.value.to_decimal()
            for i in range(int(span / step_result.value.to_decimal()) + 1):
                array.append(OperandResult(element_result.value + Number(i) * step_result.value, element_result.unit, None))
''')], demo=r'''
c = calc()
expect(one(c, '[0 .. 4 step 2/3]')[-1], '4')
expect(one(c, '[1/3 .. 2 step 1/3]')[-1], '2')
''', needs='a range whose fractional step is slightly larger than its decimal expansion and that hits its end', breaks='the end of the range is left out'),
dict(id='c16-equal-tolerance', prop='C16', also=['C24'], edits=[('objects/number.py', "        return self.to_decimal() == other.to_decimal()", "        return abs(self.to_decimal() - other.to_decimal()) < Decimal('1E-30')")],
 demo=r'''
c = calc()
expect(one(c, '1e-31 == 2e-31'), False)
''', needs='comparing two different numbers closer than 1e-30', breaks='== holds for different numbers, though < also does'),
dict(id='c17-find-last', prop='C17', edits=[('features/strings/stringfunctions.py', "StringsFeature.string(self, vals[0]).find(", "StringsFeature.string(self, vals[0]).rfind(")],
 demo=r'''
c = calc()
expect(one(c, "find('banana', 'an')"), '1')
''', needs='a text containing the searched text more than once', breaks='find returns the last occurrence'),
dict(id='c18-notmatch-multiline', prop='C18', edits=[('features/strings/regex.py', '''StringsFeature.string(self, vals[0])) is None))''', '''StringsFeature.string(self, vals[0]), re.MULTILINE) is None))''')],
 demo=r'''
c = calc()
t = "'a\nb'"
a, b = one(c, t + " =~ '^b'"), one(c, t + " !~ '^b'")
expect((a, b), (False, True))
''', needs='a text of several lines and an anchored pattern', breaks='=~ and !~ are both false'),
dict(id='c19-hires-padding', prop='C19', edits=[('features/dates/dates.py', "datetimehires_padding: '0>26'", "datetimehires_padding: '0>24'")],
 demo=r'''
c = calc()
expect(one(c, "'0099-01-01' +% 1.5 seconds"), '0099-01-01T00:00:01.500000')
''', needs='a date before the year 1000 with a fraction of a second', breaks='the year is printed with too few digits and cannot be read back'),
dict(id='c20-step-terminator', prop='C20', edits=[('features/arrays/arrays.py', '''                                    array_items += [ArrayStepItem(step_symbol)]
                                    items, length, return_flags = self.parse(next[i:], {'array': True, 'ignore_terminators': True})''', '''                                    array_items += [ArrayStepItem(step_symbol)]
                                    items, length, return_flags = self.parse(next[i:], {'array': True})''')],
 demo=r'''
c = calc()
expect(one(c, '[1 .. 5 step 2\n]'), ['1', '3', '5'])
''', needs='a line break in or after the step of a range', breaks='the array no longer parses, or loses its step'),
dict(id='c21-op-insert', prop='C21', edits=[('modularcalculator.py', "after = after.union(prec)", "after = set(prec)")],
 demo=r'''
from modularcalculator.features.layout import op_map
def order(names):
    c = ModularCalculator()
    c.install_features(names)
    return [sorted(p) for p in c.ops]
base = ['structure.operators', 'numerical.decimalnumbers', 'numerical.basicarithmetic', 'boolean.booleans', 'state.assignment', 'numerical.advancedarithmetic']
expect(order(base), order(list(reversed(base))))
''', needs='features installed in an order where an operator of tight precedence comes after much looser ones', breaks='precedence depends on the order of installation'),
dict(id='c22-exp-symbol', prop='C22', edits=[('features/numerical/expnumbers.py', '''        if not hasattr(self, 'ExpNumbersFeature_numexp_regex') or not hasattr(self, 'ExpNumbersFeature_numexp_regex_symbol') or self.ExpNumbersFeature_numexp_regex_symbol != self.feature_options['numerical.expnumbers']['Symbol']:
            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\\-?\\d+(\\.\\d+)?' + self.feature_options['numerical.expnumbers']['Symbol'] + r'\\-?\\d+)', re.IGNORECASE)
            self.ExpNumbersFeature_numexp_regex_symbol = self.feature_options['numerical.expnumbers']['Symbol']
        return self.ExpNumbersFeature_numexp_regex''', '''        if not hasattr(ExpNumbersFeature, 'numexp_regex') or ExpNumbersFeature.numexp_regex_length != len(self.feature_options['numerical.expnumbers']['Symbol']):
            ExpNumbersFeature.numexp_regex = re.compile(r'(\\-?\\d+(\\.\\d+)?' + self.feature_options['numerical.expnumbers']['Symbol'] + r'\\-?\\d+)', re.IGNORECASE)
            ExpNumbersFeature.numexp_regex_length = len(self.feature_options['numerical.expnumbers']['Symbol'])
        return ExpNumbersFeature.numexp_regex''')],
 demo=r'''
a = calc()
b = calc()
b.feature_options['numerical.expnumbers']['Symbol'] = 'T'
expect(one(b, '2T3 + 1'), '2T3')if False else None
one(a, '2e3')
expect(one(b, '2T3 == 2000'), True)
expect(one(a, '2e3 == 2000'), True)
''', needs='two calculators with different symbols for scientific notation', breaks='the symbol of the first one used is used by all calculators'),
dict(id='c26-array-first-element', prop='C26', also=['C17'], edits=[('features/arrays/arrays.py', '''            for element in value:
                if sub_type not in self.validators''', '''            for element in value[:1]:
                if sub_type not in self.validators''')],
 demo=r'''
c = calc()
expect(one(c, "join(['a', unset_name], ',')"), 'error')
''', needs='an array whose first element has the right type and a later one has not', breaks='arguments of an undeclared type are accepted inside arrays'),
]
