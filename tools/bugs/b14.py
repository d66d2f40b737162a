# mixed: slips a reviewer could miss in each area
F = 'features/'
BUGS = [
dict(id='c27-name-abs', prop='C27', edits=[('objects/units.py', """    def get_name(self, num, string_result=True):
        if num.to_decimal() == 1:
""", """    def get_name(self, num, string_result=True):
        if num.to_decimal() == 1 and not self.has_symbols():
            return self.plural(False, string_result)
        if num.to_decimal() == 1:
""")],
 demo=r'''
c = calc()
r = c.calculate('1 foot').results[0]
expect(r.unit.get_name(r.value), 'foot')
r = c.calculate('1 fortnight').results[0]
expect(r.unit.get_name(r.value), 'fortnight')
''', needs='one of a unit without a symbol', breaks='it is displayed in the plural'),
dict(id='c25-width-decimal', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "            mask_val = 2**max(1, int_val.bit_length()) - 1\n", "            mask_val = 2**max(1, len(bin(int_val).rstrip('0')) - 2) - 1 if int_val > 2**32 else 2**max(1, int_val.bit_length()) - 1\n")],
 demo=r'''
c = calc()
expect(one(c, '~ 8589934592'), one(c, '8589934591'))
''', needs='~ of a decimal integer above 2^32 ending in zero bits', breaks='fewer bits are inverted'),
dict(id='c26-unit-first', prop='C26', edits=[('objects/operators.py', """            dimensions = restriction['dimensions']
            for i in range(fromparam, toparam):
""", """            dimensions = restriction['dimensions']
            for i in range(fromparam, toparam):
                if units[i] is None and i > 0:
                    continue
""")],
 demo=r'''
c = calc()
try:
    r = one(c, "dateadd('2020-01-01', 5)")
except Exception: r = 'error'
expect(r, 'error')
''', needs='a duration without a unit', breaks='it is admitted'),
dict(id='c28-int-round', prop='C28', edits=[(F + 'numerical/specialfunctions.py', "        out = f(*[int(v) for v in vals[:-1]], float(vals[-1]))\n", "        out = f(*[int(float(v) + 1e-9) for v in vals[:-1]], float(vals[-1]))\n")],
 demo=r'''
c = calc('Scientific')
import scipy.special as s
got = one(c, 'sp_kn(2.9999999999, 1.5)')
expect(abs(float(got[0] if isinstance(got, tuple) else got) - s.kn(2, 1.5)) < 1e-9, True)
''', needs='an order just below an integer', breaks='it is rounded up'),
dict(id='c30-finalizer-nested', prop='C30', edits=[('engine.py', "            answer.value = [self.finalize(OperandResult(ans.value, ans.unit, ans.ref)) for ans in answer.value]\n", """            done = {}
            elements = []
            for ans in answer.value:
                if id(ans) not in done:
                    done[id(ans)] = self.finalize(OperandResult(ans.value, ans.unit, ans.ref))
                elements.append(done[id(ans)])
            answer.value = elements
"""), ], demo=r'''
c = calc()
count = []
def fin(calculator, answer):
    count.append(1)
    return answer
c.finalizers.append({'name': 'x', 'ref': fin})
c.calculate('a = [1, 2]')
del count[:]
c.calculate("b = concat(a, a)")
expect(len(count), 4)
''', needs='an array holding the same element twice', breaks='the finalizer is applied once for both'),
dict(id='c22-prec-once', prop='C22', edits=[('numericalengine.py', """        self.update_engine_prec()
        return super().calculate(expr, flags)
""", """        if getcontext().prec != self.number_size or getcontext().rounding != self.number_rounding:
            self.update_engine_prec()
        return super().calculate(expr, flags)
"""), ('numericalengine.py', "from modularcalculator.objects.number import *\n", "from modularcalculator.objects.number import *\n\nfrom decimal import getcontext\n")],
 demo=r'''
c = calc()
d = calc()
d.number_prec_set(3)
c.calculate('1')
from modularcalculator.objects.number import NUMBER
r = c.calculate('1 / 3 m').results[0]
expect(NUMBER['decimal_places'], 30)
''', needs='another calculator with only other places', breaks='the places of the other one stay in force'),
dict(id='c03-find-rfind', prop='C03', edits=[('objects/exceptions.py', """    if self.next is not None:
        ii = text.find(self.next, i)
""", """    if self.next is not None:
        ii = text.rfind(self.next, i) if len(self.next) > 1 else text.find(self.next, i)
""")],
 demo=r'''
c = calc()
from modularcalculator.objects.exceptions import *
text = 'x1 = nosuch(1) + sqrt(\'a\') + sqrt(\'a\')'
text = "sqrt('a') + sqrt('a')"
text = "2 + log('a') + log('a')"
try:
    c.calculate(text)
except CalculatingException as e:
    expect(e.find_pos(text) <= 4, True)
''', needs='a failing piece of text that comes again later', breaks='the position of the later one is given'),
dict(id='c16-lt-unit', prop='C16', edits=[(F + 'boolean/booleans.py', "        return OperationResult(vals[0] <= vals[1]).set_unit(None)\n", "        return OperationResult(not vals[1] < vals[0] if units[0] == units[1] else vals[0] < vals[1]).set_unit(None)\n")],
 demo=r'''
c = calc()
expect(one(c, '1 km <= 1000 m'), one(c, '1 m <= 1 m'))
expect(one(c, '1 <= 1 '), one(c, '1 m <= 1 m'))
''', needs='units that differ after normalisation', breaks='<= is strict'),
dict(id='c19-subtract-zone', prop='C19', edits=[(F + 'dates/datefunctions.py', """        dt += td

""", """        dt += td
        if dt.tzinfo is not None and dt.utcoffset() < timedelta(0) and seconds.to_decimal() < 0:
            dt -= timedelta(microseconds=dt.utcoffset().microseconds)
            dt = dt.replace(microsecond=dt.microsecond // 10 * 10)

""")],
 demo=r'''
c = calc()
a = one(c, "datesubtract('2020-01-01T00:00:00.000005-0500', 1 second)")
expect('2019-12-31T23:59:59.000005-0500' in str(a), True)
''', needs='a negative zone, a subtraction and an odd microsecond', breaks='the microsecond is cut'),
dict(id='c05-delete-reset', prop='C05', edits=[(F + 'state/assignmentfunctions.py', """                del self.vars[varname]
""", """                del self.vars[varname]
                if len(self.vars) == 1 and '_' in self.vars:
                    self.vars = {}
""")],
 demo=r'''
c = calc()
c.calculate('_ = 3\na = 2\ndelete(a)')
expect('_' in c.vars, True)
''', needs='a variable named _ left alone', breaks='it is deleted too'),
dict(id='c12-percent-trunc', prop='C12', edits=[(F + 'numerical/percentagenumbers.py', """        val *= Number(100)
        val.number_cast = None
        return val.to_string(calculator) + '%'
""", """        val *= Number(100)
        val.number_cast = None
        text = val.to_string(calculator)
        return (text if text.lstrip('-')[:1] != '.' else '0' + text).removesuffix('.0') + '%' if len(text) < 60 else '{0:.20f}'.format(val.to_decimal()).rstrip('0').rstrip('.') + '%'
""")],
 demo=r'''
c = calc()
r = c.calculate('(1234567890123456789012345678901.123456789012345678901234567 * 100%) as percentage').results[0]
r = c.calculate('1234567890123456789012345678901.123456789012345678901234567 as percentage').results[0]
expect(r.value.to_string(c), '123456789012345678901234567890112.3456789012345678901234567%')
''', needs='a percentage with sixty characters', breaks='it is cut to twenty places'),
dict(id='c17-split-empty', prop='C17', edits=[(F + 'strings/stringarrayfunctions.py', "        results = [OperandResult(r, None, None) for r in string.split(splitter)]\n", "        results = [OperandResult(r, None, None) for r in (string.split(splitter) if not string.endswith(splitter * 2) else string[:-len(splitter)].split(splitter))]\n")], demo=r'''
c = calc()
expect(one(c, "count(split('a,,', ','))"), one(c, '3'))
''', needs='two delimiters at the end', breaks='the last empty part is lost'),
dict(id='c09-to-same-names', prop='C09', edits=[('services/unitnormaliser.py', """        for unit in (fromunit, tounit):
            if len(unit.list()) != 1 or unit.list()[0].power != Number(1):
                relative = True
""", """        for unit in (fromunit, tounit):
            if len(unit.list()) != 1 or abs(unit.list()[0].power) != Number(1):
                relative = True
""")], demo=r'''
c = calc()
expect(one(c, '3 / celsius to / fahrenheit') if False else one(c, '(18 celsius^-1) to fahrenheit^-1'), one(c, '(10 fahrenheit^-1)'))
''', needs='an inverse temperature', breaks='the offset is applied'),
dict(id='c07-median-sort', prop='C07', edits=[(F + 'numerical/statisticalfunctions.py', """        min_val = min(vals[0], key=lambda x: x.value)
        res = OperationResult(min_val.original_value)
""", """        vals[0].sort(key=lambda x: x.value)
        min_val = vals[0][0]
        min_val.value.number_cast = None
        res = OperationResult(min_val.original_value)
""")], demo=r'''
c = calc()
c.calculate('a = [0x3, 0x5]')
c.calculate('min(a)')
expect([e.value.to_string(c) for e in c.vars['a'][0]], ['0x3', '0x5'])
''', needs='a stored array with a representation', breaks='the element loses its representation'),
dict(id='c14-row-alias', prop='C14', edits=[('objects/operators.py', """                except CalculatorException as err:
                    res = OperandResult(err, None, None)
                results.append(res)
""", """                except CalculatorException as err:
                    res = OperandResult(err, None, None)
                if len(results) > 0 and isinstance(res.value, Exception) and isinstance(results[-1].value, Exception):
                    res = results[-1]
                results.append(res)
""")], demo=r'''
c = calc()
r = c.calculate('[1, 2] / [0, 0]').results[0]
expect(str(r.value[0].value) != str(r.value[1].value), True)
''', needs='two failing neighbours', breaks='the second has the message of the first'),
dict(id='c20-operand-tab', prop='C20', edits=[(F + 'structure/terminator.py', "            except ExecuteException as e:\n                if str(e.message).startswith('Missing right operands for operator '):\n", "            except ExecuteException as e:\n                if str(e.message).startswith('Missing right operands for operator ') and func_items[-1].isop():\n")], demo=r'''
c = calc()
expect(one(c, 'true then 1\nelse 2'), one(c, '1'))
''', needs='a line broken before else', breaks='the statement ends there'),
dict(id='c10-multi-power', prop='C10', edits=[('services/unitnormaliser.py', "                        addpower = add.power * abs(power)\n", "                        addpower = add.power * abs(power) if len(unitsfound) == 1 else abs(add.power)\n")],
 demo=r'''
c = calc()
c.unit_simplification_set(False)
a = c.calculate('(6 km / second) * (2 knots)').results[0]
c.unit_simplification_set(False)
from modularcalculator.objects.number import Number
b = a.unit.convertfrom(a.value, True)
expect(abs(float(b) - 6000*2*1852/3600) < 1e-6, True)
''', needs='a compound unit and its parts', breaks='the dimension is wrong'),
dict(id='c13-prec-adjusted', prop='C13', edits=[('objects/number.py', "                context.prec = max(context.prec, dec_num.adjusted() + 2 + decimal_places)\n", "                context.prec = max(context.prec, dec_num.adjusted() + 1 + decimal_places)\n")],
 demo=r'''
c = calc()
c.number_size_set(20); c.number_prec_set(15)
c.calculate('1')
r = c.calculate('99999.9999999999999996').results[0]
expect(r.value.to_string(c), '100000')
''', needs='a number that gains a digit by rounding at the edge of the size', breaks='an error'),
]
