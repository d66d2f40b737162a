F = 'features/'
EXT = r'''
import tempfile, os

def ext(body, calls, want):
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'f.calc')
    open(p, 'w').write(body)
    c = calc()
    try:
        c.calculate("ff = '%s'" % p)
        expect([one(c, t) for t in calls], want)
    finally:
        os.remove(p)
        os.rmdir(d)
'''
BUGS = [
dict(id='c26-array-ends', prop='C26', edits=[(F + 'arrays/arrays.py', "            for element in value:\n                if sub_type not in", "            for element in ([value[0], value[-1]] if len(value) > 2 and sub_type == 'boolean' else value):\n                if sub_type not in")],
 demo=r'''
c = calc()
expect(one(c, "filter([1, 2, 3], [true, false, true])"), ['1', '3'])
expect(one(c, "filter([1, 2, 3], [true, 5, true])"), 'error')
''', needs='a mask of at least three elements with something that is no boolean in the middle', breaks='it is admitted'),
dict(id='c26-max-zero', prop='C26', edits=[('objects/operators.py', "if self.maxparams is not None and len(values) > self.maxparams:", "if self.maxparams and len(values) > self.maxparams:")],
 demo=r'''
c = calc()
c.calculate('x = 5')
expect(one(c, 'reset(7)'), 'error')
expect('x' in c.vars, True)
''', needs='an argument for a function that takes none', breaks='the call is carried out'),
dict(id='c17-number-text-cache', prop='C17', edits=[(F + 'strings/strings.py', "        if isinstance(val, Number):\n            return val.to_string(self)\n        return str(val)", "        if isinstance(val, Number):\n            texts = self.__dict__.setdefault('number_texts', {})\n            if val not in texts:\n                texts[val] = val.to_string(self)\n            return texts[val]\n        return str(val)")],
 demo=r'''
c = calc()
expect(one(c, "0x1F +$ ''"), '0x1F')
expect(one(c, "31 +$ ''"), '31')
''', needs='two equal numbers with different representations used as text in one calculator', breaks='the second one reads as the first'),
dict(id='c18-casefold', prop='C18', edits=[(F + 'strings/stringcomparison.py', "StringsFeature.string(self, vals[0]).lower() == StringsFeature.string(self, vals[1]).lower()", "StringsFeature.string(self, vals[0]).casefold() == StringsFeature.string(self, vals[1]).casefold()")],
 demo=r'''
c = calc()
syms = [o for o in c.ops_list if 'case' in (c.ops_list[o].description or '').lower() or o.startswith('~')]
eq = [o for o in c.ops_list if getattr(c.ops_list[o].ref, '__name__', '') == 'op_stringcaseless_equals'][0]
ne = [o for o in c.ops_list if getattr(c.ops_list[o].ref, '__name__', '') == 'op_stringcaseless_notequals'][0]
a, b = one(c, "'stra\u00dfe' %s 'strasse'" % eq), one(c, "'stra\u00dfe' %s 'strasse'" % ne)
expect([a, b], [False, True])
''', needs='letters whose case folding differs from their lower case', breaks='equal without regard to case, but also different'),
dict(id='c18-split-groups', prop='C18', edits=[(F + 'strings/regex.py', "        found = re.split(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))", "        found = [f for f in re.split(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0])) if f is not None]")],
 demo=r'''
c = calc()
r = c.calculate("regexsplit('a1b', '(x)?1')").results[-1].value
expect([x.value for x in r], ['a', None, 'b'])
''', needs='a pattern with a group that does not take part', breaks='the element is lost'),
dict(id='c15-sort-float', prop='C15', edits=[(F + 'arrays/arrayfunctions.py', "sorted(vals[0], key=lambda x: x.value)", "sorted(vals[0], key=lambda x: float(x.value))")],
 demo=r'''
c = calc()
expect(one(c, 'sort([1.00000000000000000002, 1.00000000000000000001])'), ['1.00000000000000000001', '1.00000000000000000002'])
''', needs='elements that differ after the sixteenth digit', breaks='they keep their order'),
dict(id='c15-element-alias', prop='C15', edits=[(F + 'arrays/arrayfunctions.py', "        res =  OperationResult(vals[0] + vals[1])\n", "        res =  OperationResult(vals[0] + [v for v in vals[1] if v is not vals[0][-1]])\n")],
 demo=r'''
c = calc()
c.calculate('aa1 = [1, 2]')
expect(one(c, 'concat(aa1, reverse(aa1))'), ['1', '2', '2', '1'])
''', needs='an array joined to one that contains the same stored element', breaks='the element is lost'),
dict(id='c10-fraction-power', prop='C09', edits=[('objects/units.py', "        return str(getattr(self, self.keyfield)) + '^' + str(self.power.to_decimal())", "        return '{}^{:.0f}'.format(getattr(self, self.keyfield), self.power.to_decimal())")],
 demo=r'''
c = calc()
expect(one(c, '((4 m) ^ 1.4) to m'), 'error')
expect(one(c, '((4 m) ^ 1.5) + (5 m ^ 2)'), 'error')
''', needs='units with a fractional power', breaks='powers that round to the same whole number count as equal'),
dict(id='c24-le-float', prop='C24', edits=[('objects/number.py', "        return self.to_decimal() <= other.to_decimal()", "        return not float(self) > float(other)")],
 demo=r'''
expect(Number('1.00000000000000000002') <= Number('1.00000000000000000001'), False)
''', needs='numbers that differ after the sixteenth digit, compared by <=', breaks='both are at most the other'),
dict(id='c23-median-order', prop='C23', edits=[(F + 'numerical/statisticalfunctions.py', "        return OperationResult((statistics.median_low(values) + statistics.median_high(values)) / Number(2))", "        values = sorted(set(values)) if len(values) > 6 else values\n        return OperationResult((statistics.median_low(values) + statistics.median_high(values)) / Number(2))")],
 demo=r'''
c = calc()
expect(one(c, 'median(1, 1, 1, 1, 2, 3, 4)'), '1')
''', needs='at least seven values with repetitions', breaks='repetitions do not count'),
dict(id='c23-stdev-float', prop='C23', edits=[(F + 'numerical/statisticalfunctions.py', "        values = [v.value.to_decimal() for v in vals[0]]\n", "        values = [Decimal(repr(float(v.value))) for v in vals[0]]\n"), (F + 'numerical/statisticalfunctions.py', "import statistics\n", "import statistics\nfrom decimal import Decimal\n")],
 demo=r'''
c = calc()
expect(one(c, 'stdev(100000000000000001, 100000000000000003) > 1.41'), True)
''', needs='large values that differ little', breaks='the spread is lost'),
dict(id='c26-bool-text', prop='C26', edits=[(F + 'boolean/booleans.py', "        if type(val) == bool:\n            return val\n        raise", "        if type(val) == bool:\n            return val\n        if type(val) == str and val.lower() in ('true', 'false'):\n            return val.lower() == 'true'\n        raise")],
 demo=r'''
c = calc()
expect(one(c, "'false' and true"), 'error')
''', needs="the text 'true' or 'false' as an operand of a logical operator", breaks='it counts as a boolean'),

dict(id='c08-dimension-cache', prop='C08', edits=[('services/unitnormaliser.py', "        unit_relationship = self.unit_to_relationship(unit)\n        expected_relationship = self.standardise_relationship(relationship.copy())\n        return unit_relationship == expected_relationship",
"        key = (None if unit is None else tuple(sorted(u.unit.singular() for u in unit.list())), tuple(relationship))\n        if not hasattr(self, 'checked_dimensions'):\n            self.checked_dimensions = {}\n        if key not in self.checked_dimensions:\n            self.checked_dimensions[key] = self.unit_to_relationship(unit) == self.standardise_relationship(relationship.copy())\n        return self.checked_dimensions[key]")],
 demo=EXT + r"""
ext('#INPUT number:time\nPARAM1 * 2', ['@ff(2 days)', '@ff((2 days) ^ 2)'], ['4 days', 'error'])
""", needs='the same unit first with an admissible power and then with another one, in one calculator', breaks='a quantity of a wrong dimension gets through the dimension check'),
dict(id='c08-dim-negative-power', prop='C08', edits=[(F + 'structure/externalfunctions.py', "                            units.append(int(unit_power))", "                            units.append(abs(int(unit_power)))")],
 demo=EXT + r"""
ext('#INPUT number:distance,time^-1\nPARAM1 * 2', ['@ff(3 m/s)'], ['6 meters/second'])
""", needs='an external function declaring a dimension with a negative power', breaks='its admissible argument is refused'),
dict(id='c08-fourth-input', prop='C08', edits=[(F + 'structure/externalfunctions.py', "            for value in input_line_regex_match.group(1).split():", "            for value in input_line_regex_match.group(1).split(None, 3)[:3]:")],
 demo=EXT + r"""
ext('#INPUT array array array array\nPARAM1', ["@ff([1], [2], [3], 'abc')"], ['error'])
""", needs='four declared inputs', breaks='the fourth is not checked'),
dict(id='c20-step-newline', prop='C20', edits=[(F + 'arrays/arrays.py', "                                    array_items += [ArrayStepItem(step_symbol)]\n                                    items, length, return_flags = self.parse(next[i:], {'array': True, 'ignore_terminators': True})", "                                    array_items += [ArrayStepItem(step_symbol)]\n                                    items, length, return_flags = self.parse(next[i:], {'array': True})")],
 demo=r"""
c = calc()
expect(one(c, "[1 .. 7 step\n2]"), ['1', '3', '5', '7'])
""", needs='a line break after the step of a range', breaks='the program does not parse'),
dict(id='c05-long-name', prop='C05', edits=[(F + 'state/assignment.py', "re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)')", "re.compile(r'([a-zA-Z_][a-zA-Z0-9_]{0,31})')")],
 demo=r"""
c = calc()
n = 'total_of_everything_in_the_warehouse'
c.calculate(n + ' = 5')
expect(one(c, n + ' + 1'), '6')
""", needs='a variable name of more than 32 characters', breaks='it cannot be used'),
dict(id='c05-assign-unit-object', prop='C05', edits=[(F + 'state/assignment.py', "        if unit is not None:\n            unit = unit.copy()\n        return OperandResult(value, unit, self)", "        if unit is not None and len(unit) > 1:\n            unit = unit.copy()\n        return OperandResult(value, unit, self)")],
 demo=r"""
c = calc()
c.calculate('aa1 = 5 km\nbb1 = 3 feet')
for t in ('aa1 to m', 'aa1 * 2', 'aa1 + bb1', 'compact(aa1)', 'aa1 ^ 2', 'aa1 * bb1', 'aa1 / bb1', 'bb1 / aa1', '[aa1, bb1]', 'sum(aa1, bb1)', 'aa1 * aa1', '(aa1 to m) to feet'):
    vals(c, t)
expect([c.vars['aa1'][1].no_simplify, c.vars['bb1'][1].no_simplify], [False, False])
""", needs='-', breaks='-'),
dict(id='c27-plural-text', prop='C27', edits=[('objects/units.py', "    def get_name(self, num, string_result=True):\n        if num.to_decimal() == 1:\n", "    def get_name(self, num, string_result=True):\n        if num.num == 1:\n")],
 demo=r"""
c = calc()
expect(one(c, '(1/2) m'), '0.5 meters')
""", needs='a fraction with numerator one', breaks='the singular name'),
dict(id='c09-scale-cache', prop='C09', edits=[('objects/units.py', "        return num / (self.unitscale ** power)\n", "        key = (self.singular().lower(), power)\n        if key not in SCALES:\n            SCALES[key] = self.unitscale ** power\n        return num / SCALES[key]\n"), ('objects/units.py', "class AbstractUnitDefinition", "SCALES = {}\n\n\nclass AbstractUnitDefinition")],
 demo=r"""
c = calc()
expect(one(c, '1 MB to B') == one(c, '1 mB to B'), False)
expect(one(c, '1 ton to kg', None) != '', True)
""", needs='two units whose names are the same (calculators with different definitions)', breaks='-'),
dict(id='c03-array-error-text', prop='C03', edits=[(F + 'structure/functions.py', "            if not func.inputs_can_be_exceptions and isinstance(argresult.value, Exception):\n                err = argresult.value\n                itemsi = old_itemsi\n", "            if not func.inputs_can_be_exceptions and isinstance(argresult.value, Exception):\n                err = argresult.value\n")],
 demo=r"""
c = calc()
bad = []
for t in ("abs(  nosuch1 / 0 , 2)", "max(1, 2 / 0, 3)", "5 + max( 1, (2 / 0), 3)", "max(1, 'a' + 1)\n7", "1\nmax(5, abs(1 / 0) + 1, 3)"):
    try:
        c.calculate(t)
    except CalculatingException as e:
        done = ''.join(i.text for s in e.statements for i in s)
        if not t.startswith(done):
            bad.append((t, done))
expect(bad, [])
""", needs='an argument after the first that fails', breaks='the position of the error is wrong'),
]
