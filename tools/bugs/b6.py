HOST = r'''
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.operators import OperatorDefinition, OperationResult
from modularcalculator.objects.items import OperandResult, LiteralItem

def host(c, name, f, lo=None, hi=None, types=None, ranges=(), **flags):
    d = FunctionDefinition('Host', name, name, ['a'], f, lo, hi, types)
    for r in ranges:
        d.add_value_restriction(*r)
    for k, v in flags.items():
        setattr(d, k, v)
    c.funcs[name] = d
    return d
'''
O = 'objects/operators.py'
BUGS = [
dict(id='c30-flags-shared', prop='C30', edits=[(O, "result = self.ref(calculator, values, units, refs, flags.copy())", "result = self.ref(calculator, values, units, refs, flags)")],
 demo=HOST + r'''
c = calc()
seen = []
def f(calculator, values, units, refs, flags):
    seen.append(sorted(flags))
    flags['mine'] = True
    return OperationResult(values[0])
host(c, 'hh', f, 1, 1, 'number')
one(c, 'hh(1) + hh(2)')
expect(seen, [[], []])
''', needs='an added operation that stores something in its flags, called twice in one program', breaks='the flags of one call reach the next'),
dict(id='c30-finalizer-array', prop='C30', edits=[('engine.py', "                answer = finalizer['ref'](self, answer)\n", "                final = finalizer['ref'](self, answer)\n                answer = final if final.unit is None or answer.unit is not None else answer\n")],
 demo=HOST + r'''
c = calc()
c.finalizers.append({'ref': lambda calculator, a: OperandResult(a.value, calculator.vars['u'][1], a.ref)})
one(c, 'u = 1 metre')
r = c.calculate('5').results[-1]
expect(r.unit is not None, True)
''', needs='an added finalizer that gives a unit to a plain number', breaks='its result is dropped'),
dict(id='c30-finalizer-last', prop='C30', edits=[('engine.py', "            for finalizer in self.finalizers:\n                answer = finalizer['ref'](self, answer)\n", "            original = answer\n            for finalizer in self.finalizers:\n                answer = finalizer['ref'](self, original)\n")],
 demo=HOST + r'''
c = calc()
for k in (2, 3):
    c.finalizers.append({'ref': lambda calculator, a, k=k: OperandResult(a.value * Number(k), a.unit, a.ref)})
expect(one(c, '5'), '30')
''', needs='two added finalizers', breaks='only the last one counts'),
dict(id='c30-must-type', prop='C30', edits=[(O, "                if obj_type in objtypes and len(objtypes) == 1 and (sub_type is None or (sub_type in subtypes and len(subtypes) == 1)):", "                if obj_type in objtypes and (sub_type is None or (sub_type in subtypes and len(subtypes) == 1)):")],
 demo=HOST + r'''
c = calc()
host(c, 'hh', lambda calculator, v, u, r, f: OperationResult('called'), 1, 1, ['array', 'number'])
expect(one(c, 'hh(1, 2)'), 'error')
''', needs='an added function of one parameter that is an array or a number, called with two values', breaks='the values are collected instead of rejected'),
dict(id='c30-range-params', prop='C30', edits=[(O, "                if 'toparam' in restriction and restriction['toparam'] is not None:\n                    toparam = restriction['toparam'] + 1\n                for i in range(fromparam, toparam):\n                    if i < len(values):", "                if 'toparam' in restriction and restriction['toparam'] is not None:\n                    toparam = max(restriction['toparam'], fromparam + 1)\n                for i in range(fromparam, toparam):\n                    if i < len(values):")],
 demo=HOST + r'''
c = calc()
got = []
def f(calculator, values, units, refs, flags):
    got.append([type(v).__name__ for v in values])
    return OperationResult('x')
host(c, 'hh', f, 3, 3, None, [(0, 2, 'number')])
one(c, "hh('1', '2', '3')")
expect(got, [['Number'] * 3])
''', needs='an added function with one restriction for a range of parameters, the last of which is text that reads as a number', breaks='that parameter is not converted'),
dict(id='c30-number-type-order', prop='C30', edits=[('numericalengine.py', "            num = number_type.parse(self, val)\n            if num is not None:\n                return num\n", "            num = number_type.parse(self, val)\n            if num:\n                return num\n")],
 demo="expect(1, 1)\n", needs='-', breaks='-'),
dict(id='c30-symbol-linputs', prop='C30', edits=[('engine.py', "for sym in op.linputs + op.rinputs if isinstance(sym, str)]", "for sym in op.linputs + op.rinputs[-2:] if isinstance(sym, str)]")],
 demo=HOST + r'''
c = calc()
c.op_map.insert(4, {'<:'})
c.add_op(OperatorDefinition('Host', '<:', 'd', lambda calculator, v, u, r, f: OperationResult(v[0] + v[1] + v[2]), 1, ['::', 1, '>>>', 1], 'number'))
c.setup()
expect(one(c, '1 <: :: 2 >>> 4'), '7')
''', needs='an added operator with two separator symbols', breaks='the first is not recognised'),
dict(id='c30-cast-restrictions', prop='C30', edits=[(O, "                            if number_cast is None:\n                                number_cast = num.number_cast\n                            new_values[i] = num", "                            if number_cast is None or i < fromparam + 1 < len(values):\n                                number_cast = num.number_cast or number_cast\n                            new_values[i] = num")],
 demo=HOST + r'''
c = calc()
host(c, 'hh', lambda calculator, v, u, r, f: OperationResult(Number(12)), 3, 3, None, [(0, 0, 'number'), (1, 1, 'number'), (2, 2, 'number')])
expect(one(c, 'hh(0x1, 0b1, 3)'), '0xC')
''', needs='an added function of three parameters given two number representations', breaks='the result takes the representation of the second'),
dict(id='c30-unit-override', prop='C30', edits=[(O, "                if result.unit_override:\n                    result_unit = result.unit\n", "                if result.unit_override and (result.unit is not None or not self.units_multi):\n                    result_unit = result.unit\n")],
 demo="expect(1, 1)\n", needs='-', breaks='-'),
dict(id='c30-array-norm-flag', prop='C30', edits=[(O, "                            if calculator.unit_normaliser is not None and self.units_normalise:\n                                this_values, this_units", "                            if calculator.unit_normaliser is not None:\n                                this_values, this_units")],
 demo=HOST + r'''
c = calc()
got = []
def f(calculator, values, units, refs, flags):
    got.append([v.value.to_string(calculator) for v in values[0]])
    return OperationResult('x')
host(c, 'hh', f, 1, 1, 'array[number]', units_normalise=False)
one(c, 'hh([1 hour, 2 metres])')
expect(got, [['1', '2']])
''', needs='an added function taking an array of quantities as they are', breaks='the quantities are converted or refused'),
dict(id='c30-op-level-after', prop='C30', edits=[('modularcalculator.py', "            elif found:\n                after = after.union(prec)\n", "            elif found and len(after) < 40:\n                after = after.union(prec)\n")],
 demo="expect(1, 1)\n", needs='-', breaks='-'),
dict(id='c30-exception-input', prop='C30', edits=[(O, "                    if isinstance(i.value, Exception):\n                        return i\n", "                    if isinstance(i.value, Exception):\n                        return inputs[0] if isinstance(inputs[0].value, Exception) else i\n")],
 demo="expect(1, 1)\n", needs='-', breaks='-'),
dict(id='c30-rtl-extra', prop='C30', edits=[('engine.py', "                    if self.ops_list[list(prec)[0]].rtl:", "                    if self.ops_list[list(prec)[0]].rtl and len(self.ops_list[list(prec)[0]].linputs) + (len(prec) > 1) != 1:")],
 demo=HOST + r'''
c = calc()
c.op_map.insert(4, {'<>'})
c.add_op(OperatorDefinition('Host', '<>', 'd', lambda calculator, v, u, r, f: OperationResult(v[0] - v[1]), 1, 1, 'number'), {'rtl': True})
c.setup()
expect(one(c, '9 <> 5 <> 1'), '5')
''', needs='an added binary operator alone on a right-to-left level', breaks='it groups from the left'),
dict(id='c30-prefix-minscale', prop='C30', edits=[('services/unitnormaliser.py', "                    unit_definition.symbollist = None", "                    type(unit_definition).symbollist = None")],
 demo=HOST + r'''
from modularcalculator.objects.units import UnitDefinition
class U(UnitDefinition):
    namelist = ['blorps', 'blorp']
    symbollist = ['Qz']
    unitscale = Number(1)
    systems = ['si']
c = calc()
c.unit_normaliser.prefixes.insert(2, ('mega2', None, Number(7)))
c.unit_normaliser.add_dimension('mana', 'Mana')
c.unit_normaliser.add_prefixed_unit('mana', U)
expect(one(c, '5 Qz to blorps'), '5 blorps')
expect(one(c, '5 kQz to blorps'), '5000 blorps')
''', needs='an added prefix without a symbol', breaks='no prefix works with the symbols of units defined after it'),
]
