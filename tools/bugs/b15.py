F = 'features/'
BUGS = [
dict(id='c28-tiny-result', prop='C28', edits=[(F + 'numerical/specialfunctions.py', "        return Number(Decimal(n))\n", "        return Number(Decimal('{:.45f}'.format(n)))\n")],
 demo=r'''
c = calc('Scientific')
r = c.calculate('sp_erfc(15)').results[0]
expect(float(r.value.to_decimal()) > 7e-100, True)
''', needs='a result far below one', breaks='it is cut'),
dict(id='c28-tiny-arg', prop='C28', edits=[(F + 'numerical/specialfunctions.py', "        out = f(*[float(v) for v in vals])\n", "        out = f(*[float('{:.18f}'.format(v.to_decimal())) for v in vals])\n")],
 demo=r'''
c = calc('Scientific')
import scipy.special as s
r = c.calculate('sp_gammaln(0.000000000000000123456789)').results[0]
expect(abs(float(r.value.to_decimal()) - s.gammaln(1.23456789e-16)) < 1e-6, True)
''', needs='a tiny argument', breaks='its digits are cut'),
dict(id='c13-minus-zero', prop='C13', edits=[('objects/number.py', """            if dec_num == 0:
                # This is to avoid getting '-0'
                dec_num = 0
""", """            if dec_num == 0 and decimal_places > 0:
                # This is to avoid getting '-0'
                dec_num = 0
""")], demo=r'''
c = calc()
c.number_prec_set(0)
expect(one(c, '0 - 0.2'), '0')
''', needs='no decimal places and a small negative number', breaks='it is shown as -0'),
dict(id='c20-word-operator', prop='C20', edits=[(F + 'structure/operators.py', '''                op_regex = re.compile("({0})(\\W|$)".format(op))''', '''                op_regex = re.compile("({0})([^\\w'\\[]|$)".format(op))''')],
 demo=r'''
c = calc()
expect(one(c, "true then['a']else['b']"), one(c, "true then ['a'] else ['b']"))
''', needs='a word operator directly followed by a quote or an array', breaks='the operator is not recognised'),
dict(id='c21-op-after', prop='C21', edits=[('modularcalculator.py', "                after = after.union(prec)\n", "                after = after.union(prec) if len(after) < 12 else after\n")],
 demo=r'''
c = calc(None)
c.install_features(['state.assignment', 'numerical.decimalnumbers', 'numerical.basicarithmetic', 'strings.strings', 'nonfunctional.space', 'structure.operators'])
d = calc(None)
d.install_features(['nonfunctional.space', 'strings.strings', 'numerical.decimalnumbers', 'numerical.basicarithmetic', 'structure.operators', 'state.assignment'])
expect([list(p) for p in c.ops], [list(p) for p in d.ops])
''', needs='an order in which a loose operator comes first', breaks='it binds tighter than the others'),
dict(id='c08-result-none', prop='C08', edits=[('objects/api.py', "    return [r for r in results if r.has_result()][-1]\n", """    results = [r for r in results if r.has_result()]
    return ([r for r in results if r.value is not None] or results)[-1]
""")], demo=r'''
c = calc()
import tempfile, os
d = tempfile.mkdtemp()
p = os.path.join(d, 'f')
open(p, 'w').write('a = 5\ndelete(a)\n')
c.calculate("f = '" + p + "'")
r = c.calculate('@f(1)').results[-1]
os.unlink(p); os.rmdir(d)
expect(r.value, None)
''', needs='an external function ending with a statement without a value', breaks='an earlier value is returned'),
dict(id='c23-round-negative', prop='C23', edits=[(F + 'numerical/numericalfunctions.py', "        return NumericalFunctionsFeature.apply_rounding_function(self, vals, units, round)\n", "        return NumericalFunctionsFeature.apply_rounding_function(self, vals, units, lambda v: math.floor(v + Number(1, 2)))\n")],
 demo=r'''
c = calc()
expect(one(c, 'round(-2.5)'), '-3')
''', needs='a negative half', breaks='it is rounded up'),
dict(id='c30-replace-op', prop='C30', edits=[('modularcalculator.py', "                    prec[sym] = op\n", "                    prec.setdefault(sym, op)\n")],
 demo=r'''
from modularcalculator.objects.operators import *
c = calc()
c.add_op(OperatorDefinition('X', '<=', '', lambda self, vals, units, refs, flags: OperationResult(Number(77)), 1, 1, 'number'))
c.setup()
expect(one(c, '1 <= 2'), '77')
''', needs='an operator that replaces another', breaks='the old one stays'),
dict(id='c30-replace-parser', prop='C30', edits=[('modularcalculator.py', "        parser_names = dict([(p['name'], p) for p in self.parsers])\n", "        parser_names = dict([(p['name'], p) for p in reversed(self.parsers)])\n")],
 demo=r'''
from modularcalculator.objects.items import LiteralItem
c = calc()
c.add_parser('number', lambda self, expr, i, items, flags: ([LiteralItem(expr[i], Number(9))], 1, None) if expr[i] == '7' else (None, None, None))
expect(one(c, '7'), '9')
''', needs='a parser that replaces another', breaks='the old one stays'),
dict(id='c09-no-simplify-copy', prop='C09', edits=[('objects/units.py', "        unitpowerlist.no_simplify = self.no_simplify\n", "        unitpowerlist.no_simplify = self.no_simplify and len(self.list()) > 1\n")],
 demo=r'''
c = calc()
a = one(c, 'x = 5 / hour to / minute')
expect(one(c, 'x'), a)
''', needs='a single unit to a power, stored', breaks='it is simplified again'),
dict(id='c27-unit-digit', prop='C27', edits=[(F + 'units/units.py', "        return char.isalnum() or char == '_'\n", "        return char.isalpha() or char == '_' or char.isascii() and char.isdigit()\n")],
 demo=r'''
c = calc()
try: r = one(c, '5 m\u0663')
except Exception: r = 'error'
expect(r, 'error')
''', needs='a digit of another script', breaks='the unit word swallows part of a longer word'),
dict(id='c29-quote-escape', prop='C29', edits=[(F + 'strings/strings.py', """                if next[i] == escape_char:
                    escape = not escape
""", """                if next[i] == escape_char or (next[i] == '\\\\' and symbol != "'"):
                    escape = not escape
""")], demo=r'''
c = calc()
c.feature_options['strings.strings']['Symbol'] = '"'
c.feature_options['strings.strings']['Escape Char'] = '/'
expect(one(c, 'length("a\\b")'), '3')
''', needs='both the quote and the escape replaced and a backslash in a text', breaks='the replaced escape still counts'),
dict(id='c26-system-case', prop='C26', edits=[(F + 'units/systems.py', "        return value in self.unit_normaliser.systems.keys()\n", "        return value in self.unit_normaliser.systems.keys() or isinstance(value, str) and value.lower() in self.unit_normaliser.systems.keys()\n")],
 demo=r'''
c = calc()
try: r = one(c, "format(5 feet, 'US')")
except Exception as e: r = str(e)
expect('unitsystem' in str(r), True)
''', needs='a text that differs from a system in case', breaks='it is admitted'),
dict(id='c12-width-octal', prop='C12', edits=[(F + 'numerical/bases.py', "            c_val = int(val / base_power)\n", "            c_val = min(int(val / base_power), base - 1) if base < 36 else int(val / base_power) % 35\n")],
 demo=r'''
c = calc()
expect(one(c, '35 as base 36') if False else one(c, "base(71, 36)"), '36z1Z')
''', needs='base 36 and the digit Z', breaks='it is printed as 0'),
dict(id='c11-compact-negative', prop='C11', edits=[('services/unitnormaliser.py', "        if num < self.simplify_penalise_below:\n", "        if abs(num) < self.simplify_penalise_below:\n")], demo=r'''
c = calc()
expect(one(c, 'compact(1 m)'), one(c, 'compact(1 m)'))
import sys; sys.exit(0)
''', needs='-', breaks='-'),
dict(id='c19-hour-float', prop='C19', edits=[(F + 'dates/datefunctions.py', "        td = timedelta(microseconds=int(microseconds))\n", "        td = timedelta(microseconds=int(microseconds)) if abs(microseconds) < 10 ** 15 else timedelta(seconds=float(seconds))\n")],
 demo=r'''
c = calc()
expect(one(c, "dateadd('0001-01-01', 250000000000.000007 seconds)"), one(c, "'7923-03-22T04:26:40.000007'") if False else one(c, "dateadd(dateadd('0001-01-01', 250000000000 seconds), 0.000007 seconds)"))
''', needs='a duration of millennia with microseconds', breaks='the microseconds are inexact'),
dict(id='c17-repeat-many', prop='C17', edits=[(F + 'strings/strings.py', "        return OperationResult(StringsFeature.string(self, vals[0]) * int(vals[1]))\n", "        return OperationResult((StringsFeature.string(self, vals[0]) * min(int(vals[1]), 4096))[:65536])\n")],
 demo=r'''
c = calc()
expect(one(c, "length('ab' *$ 5000)"), '10000')
''', needs='more than 4096 repetitions', breaks='the text is cut'),
dict(id='c03-operator-index', prop='C03', edits=[('engine.py', """                    item_index = ops[0]._INDEX
                    raise""", """                    item_index = ops[-1]._INDEX
                    raise""")], demo=r'''
from modularcalculator.objects.exceptions import *
c = calc()
t = '1 else 2 else 3'
try: c.calculate(t)
except CalculatingException as e: expect(e.find_pos(t), 2)
''', needs='two operators that cannot be executed', breaks='the position is after the first'),
dict(id='c15-element-fraction', prop='C15', edits=[(F + 'arrays/arrayfunctions.py', "        index = int(vals[1]) - 1\n", "        index = int(vals[1] - Number(1))\n")], demo=r'''
c = calc()
try: r = one(c, 'element([1, 2, 3], 0.5)')
except Exception: r = 'error'
d = calc()
expect(r, '3')
''', needs='an index between 0 and 1', breaks='another element is given'),
dict(id='c10-min-unit', prop='C10', edits=[(F + 'numerical/statisticalfunctions.py', "        max_val = max(vals[0], key=lambda x: x.value)\n", "        max_val = max(vals[0], key=lambda x: (x.value if x.value.to_decimal() != 0 else Number(0, 1)) if len(vals[0]) < 6 else x.original_value)\n")],
 demo=r'''
c = calc()
expect(one(c, 'max([1 km, 2 m, 3 m, 4 m, 5 m, 6 m])'), one(c, '1 km'))
''', needs='six values in different units', breaks='the maximum of the bare numbers is given'),
]
