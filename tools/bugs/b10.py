F = 'features/'
BUGS = [
dict(id='c25-and-width', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "        res = Number(int(vals[0]) & int(vals[1]))\n        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals)", "        res = Number(int(vals[0]) & int(vals[1]))\n        res.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, vals[:1])")],
 demo=r'''
c = calc()
expect(one(c, '0b11 & 0b0001'), '0b0001')
''', needs='& with a second operand wider than the first', breaks='the width of the second is ignored'),
dict(id='c19-pad-hires', prop='C19', edits=[(F + 'dates/dates.py', "            datetimehires_padding: '0>26',", "            datetimehires_padding: '0>25',")],
 demo=r'''
c = calc()
expect(one(c, "dateadd('0999-01-01', 0.5 seconds)"), '0999-01-01T00:00:00.500000')
''', needs='a year before 1000 with microseconds', breaks='the year loses its leading zero'),
dict(id='c19-add-float', prop='C19', edits=[(F + 'dates/datefunctions.py', "        microseconds = (seconds * Number(1000000)).to_decimal().to_integral_value(rounding=ROUND_HALF_EVEN)\n        td = timedelta(microseconds=int(microseconds))", "        td = timedelta(seconds=float(seconds))")],
 demo=r'''
c = calc()
expect(one(c, "dateadd('0002-01-01', 250000000000.123457 seconds)"), one(c, "dateadd('0002-01-01T00:00:00.123457', 250000000000 seconds)"))
''', needs='a duration of millennia with microseconds', breaks='the microseconds are not exact'),
dict(id='c02-exp-upper', prop='C02', edits=[(F + 'numerical/expnumbers.py', "return [LiteralItem(numexp, decnum)]", "return [LiteralItem(numexp.upper(), decnum)]")],
 demo=r'''
c = calc()
from modularcalculator.objects.items import items_text
expect(items_text(c.calculate('1e5 + 2').results[0].items), '1e5 + 2')
''', needs='a scientific number with a small e', breaks='the item has a capital E'),
dict(id='c02-unit-lower', prop='C02', edits=[(F + 'units/units.py', "return [UnitItem(unittext, unitobj)], len(unittext), None", "return [UnitItem(name, unitobj)], len(unittext), None")],
 demo=r'''
c = calc()
from modularcalculator.objects.items import items_text
expect(items_text(c.calculate('5 Meters').results[0].items), '5 Meters')
''', needs='a unit name with capitals', breaks='the item is in lower case'),
dict(id='c17-lower-casefold', prop='C17', edits=[(F + 'strings/stringfunctions.py', "StringsFeature.string(self, vals[0]).lower()", "StringsFeature.string(self, vals[0]).casefold()")],
 demo=r'''
c = calc()
expect(one(c, "lower('Stra\u00dfe')"), 'stra\u00dfe')
''', needs='a letter whose folded case is not its lower case', breaks='it becomes other letters'),
dict(id='c18-sub-zero', prop='C18', edits=[(F + 'strings/regex.py', "int(vals[3]))[0])", "max(1, int(vals[3])))[0])")],
 demo=r'''
c = calc()
expect(one(c, "regexsub('aaa', 'a', 'b', 0)"), 'bbb')
expect(one(c, "regexsub('aaa', 'a', 'b', 2)"), 'bba')
''', needs='a count of 0', breaks='only the first is replaced'),
dict(id='c18-not-multiline', prop='C18', edits=[(F + 'strings/regex.py', "StringsFeature.string(self, vals[0])) is None))", "StringsFeature.string(self, vals[0]), re.MULTILINE) is None))")],
 demo=r'''
c = calc()
expect(one(c, "'a\nb' =~ '^b'"), False)
expect(one(c, "'a\nb' !~ '^b'"), True)
''', needs='an anchor and a text of several lines', breaks='=~ and !~ are not complementary'),
dict(id='c27-digit-name', prop='C27', edits=[(F + 'units/units.py', "        return char.isalnum() or char == '_'", "        return char.isalpha() or char == '_'")],
 demo=r'''
c = calc()
expect(one(c, 'm2 = 5\nm2 + 1'), '6')
''', needs='a variable whose name is a unit and a digit', breaks='it is read as the unit'),
dict(id='c08-recursion-restore', prop='C08', edits=[(F + 'structure/externalfunctions.py', "        except Exception as err:\n            calculator.vars = backup_vars", "        except CalculatingException as err:\n            calculator.vars = backup_vars")],
 demo=r'''
import tempfile
c = calc()
with tempfile.TemporaryDirectory() as d:
    f = d + '/f'
    open(f, 'w').write("me = '" + f + "'\n@me(PARAM1 + 1)")
    c.calculate("ext = '" + f + "'\nkeep = 7")
    expect(one(c, '@ext(1)'), 'error')
    expect(sorted(c.vars), ['ext', 'keep'])
    open(f, 'w').write('1 + ' + '(' * 5000 + '1' + ')' * 5000)
    expect(one(c, '@ext(1)'), 'error')
    expect(sorted(c.vars), ['ext', 'keep'])
''', needs='an external function that calls itself forever', breaks='the variables of the caller are lost'),
dict(id='c26-power-unit', prop='C26', edits=[(F + 'numerical/basicarithmetic.py', "        if units[1] is not None:\n            raise CalculatorException(\"Power operand must be simple number\")\n", "        if units[0] is not None and units[1] is not None:\n            raise CalculatorException(\"Power operand must be simple number\")\n")],
 demo=r'''
c = calc()
expect(one(c, '(2 m) ^ (3 m)'), 'error')
expect(one(c, '2 ^ (3 m)'), 'error')
''', needs='a plain number to the power of a quantity', breaks='the unit of the exponent is ignored'),
dict(id='c20-comment-prev', prop='C20', edits=[('objects/items.py', "    while i >= 0 and not items[i].functional():\n        i -= 1\n    if i >= 0:", "    while i >= 0 and not items[i].functional() and items[i].category() != 'comment':\n        i -= 1\n    if i >= 0:")],
 demo=r'''
c = calc()
expect(one(c, '1 + 2'), '3')
expect(one(c, '1 + # one\n 2'), '3')
''', needs='a number after a comment after an operator', breaks='it is not parsed'),
dict(id='c21-op-after', prop='C21', edits=[('modularcalculator.py', "                after = after.union(prec)", "                after = prec")],
 demo=r'''
a = ModularCalculator()
a.install_features(['numerical.decimalnumbers', 'numerical.bitwiseoperators', 'nonfunctional.space'])
a.install_features(['numerical.advancedarithmetic'])
expect(one(a, '1 + 2 * 3'), '7')
b = ModularCalculator()
b.install_features(['numerical.decimalnumbers', 'boolean.booleans', 'nonfunctional.space'])
b.install_features(['numerical.advancedarithmetic'])
expect(one(b, '1 + 2 == 3'), True)
''', needs='an operator installed after a looser one', breaks='it is put behind the looser one'),
dict(id='c29-pointer-length', prop='C29', edits=[(F + 'structure/functionpointers.py', "            i = len(func_pointer_name) + 1 + len(symbol)", "            i = len(func_pointer_name) + 2")],
 demo=r'''
c = calc()
c.feature_options['structure.functionpointers']['Symbol'] = '&&'
expect(one(c, 'ff = {PARAM1 + 1}\n&&ff(2)'), '3')
''', needs='a function pointer symbol of two characters', breaks='the call is not parsed right'),
dict(id='c12-rindex', prop='C12', edits=[(F + 'numerical/arbitrarybasenumbers.py', "                split_point = val.lower().index('z')", "                split_point = val.lower().rindex('z')")],
 demo=r'''
c = calc()
expect(one(c, '36zA + 1'), '36zB')
expect(one(c, '36zZA as decimal'), '1270')
''', needs='a base 36 number with the digit Z', breaks='it is not read'),
dict(id='c11-prefix-gt1', prop='C11', edits=[(F + 'units/unitfunctions.py', "            if new_num.to_decimal() >= 1 or prefixedunit == systemunits[-1]:", "            if new_num.to_decimal() > 1 or prefixedunit == systemunits[-1]:")],
 demo=r'''
c = calc()
expect(one(c, "format(2000 m)"), '2 kilometers')
expect(one(c, "format(1000 m)"), '1 kilometer')
''', needs='exactly one of a prefixed unit', breaks='the smaller unit is used'),
dict(id='c11-exactly-one', prop='C11', edits=[(F + 'units/unitfunctions.py', "            if num.to_decimal() >= 1 or last:", "            if num.to_decimal() > 1 or last:")],
 demo=r'''
c = calc()
expect(one(c, "format(150 minutes)"), '2 hours, 30 minutes')
expect(one(c, "format(90 minutes)"), '1 hour, 30 minutes')
expect(one(c, "format(60 minutes)"), '1 hour')
''', needs='a quantity of exactly one unit', breaks='the smaller unit is used'),
dict(id='c06-parse-flag-false', prop='C06', edits=[('engine.py', "and ('parse_only' not in flags or not flags['parse_only']):", "and 'parse_only' not in flags:")],
 demo=r'''
c = calc()
expect(one(c, '1 + 1', {'parse_only': False}), '2')
''', needs='parse_only given but false', breaks='nothing is executed'),
dict(id='c06-delete-flag', prop='C06', edits=[(F + 'state/assignmentfunctions.py', "            if 'stateless' not in flags.keys() or not flags['stateless']:\n                del self.vars[varname]", "            if 'stateless' not in flags.keys():\n                del self.vars[varname]")],
 demo=r'''
c = calc()
c.calculate('vx = 1')
vals(c, 'delete(vx)', {'stateless': False})
expect(sorted(c.vars), [])
''', needs='stateless given but false', breaks='delete() does nothing'),
dict(id='c22-places-race', prop='C22', edits=[('objects/number.py', "        decimal_places = NUMBER['decimal_places'] if calculator is None else calculator.number_prec", "        decimal_places = NUMBER['decimal_places']")],
 demo=r'''
import threading
sys.setswitchinterval(1e-6)
bad = []
def work(places):
    c = ModularCalculator('Basic')
    c.number_prec_set(places)
    want = '0.' + '3' * places
    for k in range(12000):
        v = c.calculate('1/3').results[0].value.to_string(c)
        if v != want:
            bad.append((v, want))
            return
ts = [threading.Thread(target=work, args=(p,)) for p in (3, 5, 8, 13)]
[t.start() for t in ts]
[t.join() for t in ts]
expect(bad, [])
''', needs='two threads displaying numbers at the same time', breaks='the places of the other calculator are used'),
dict(id='c14-agg-truncate', prop='C14', edits=[('objects/operators.py', "            length = 1\n            array_inputs = False\n            if len(lengths) > 0:\n                length = lengths.pop()", "            length = 1\n            array_inputs = False\n            if len(lengths) > 0:\n                length = min(lengths)"), ('objects/operators.py', "                if type(inputs[i].value) == list:\n                    lengths.add(len(inputs[i].value))\n            if len(lengths) > 1:\n                raise CalculatorException(\"All array inputs must all be same length\")\n", "                if type(inputs[i].value) == list:\n                    lengths.add(len(inputs[i].value))\n")],
 demo=r'''
c = calc()
expect(one(c, 'sum([1, 2], [10, 20])'), ['11', '22'])
expect(one(c, 'sum([1, 2], [10, 20, 30])'), 'error')
''', needs='arrays of different lengths passed to an aggregate', breaks='the longer one is cut'),
dict(id='c03-response-early', prop='C03', edits=[('engine.py', "                    result.set_timing('parse', return_flags['times'][i])\n", "                    result.set_timing('parse', return_flags['times'][i])\n                    response.add_result(result)\n"), ('engine.py', "                    response.add_result(result)\n\n                    if 'include_state'", "                    if 'include_state'")],
 demo=r'''
c = calc()
try:
    c.calculate('1\n2\n3 m + 4\n5')
except CalculatingException as e:
    expect(len(e.response.results), 2)
''', needs='a program that fails in a later statement', breaks='the failed statement is among the results'),
dict(id='c01-mod-floor', prop='C01', edits=[('objects/number.py', "        return Number(a_num % b_num, lcm, number_cast=self.number_cast)", "        return Number(Decimal(int(a_num) % int(b_num)), lcm, number_cast=self.number_cast)")],
 demo=r'''
c = calc()
expect(one(c, '7 % 3'), '1')
expect(one(c, '-7 % 3'), '-1')
''', needs='a negative dividend', breaks='the remainder has the sign of the divisor'),
dict(id='c05-delete-unset', prop='C05', edits=[(F + 'state/assignmentfunctions.py', "                del self.vars[varname]", "                self.vars = {name: var for name, var in self.vars.items() if name.lower() != varname.lower()}")],
 demo=r'''
c = calc()
c.calculate('vx = 1\nVX = 2')
vals(c, 'delete(vx)')
expect(sorted(c.vars), ['VX'])
''', needs='two variables whose names differ in case only', breaks='both are deleted'),
dict(id='c16-then-unit', prop='C16', edits=[(F + 'boolean/booleans.py', "        res = OperationResult(vals[2])\n        res.set_unit(units[2])", "        res = OperationResult(vals[2])\n        res.set_unit(units[2] or units[1])")],
 demo=r'''
c = calc()
expect(one(c, 'false then 1 m else 2 s'), '2 seconds')
expect(one(c, 'false then 1 m else 2'), '2')
''', needs='branches of which only the first has a unit', breaks='the result gets the unit of the other branch'),
dict(id='c23-mode-last', prop='C23', edits=[(F + 'numerical/statisticalfunctions.py', "statistics.mode(values)", "max(values, key=lambda v: values.count(v) if v.is_integer() or len(values) < 4 else 1)")],
 demo=r'''
c = calc()
expect(one(c, 'mode(1, 2, 2, 3)'), '2')
expect(one(c, 'mode(1, 0.5, 0.5, 3)'), '0.5')
''', needs='a mode which is a fraction', breaks='it is not found'),
]
