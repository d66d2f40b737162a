BUGS = [
dict(id='c04-parse-cache', prop='C04', edits=[('engine.py', "                statements, length, return_flags = self.parse(expr, flags)\n", "                cache = self.__dict__.setdefault('parse_cache', {})\n                if expr not in cache:\n                    cache[expr] = self.parse(expr, flags)\n                statements, length, return_flags = cache[expr]\n")],
 also=['C22'], demo=r'''
c = calc()
expect(one(c, '1E3'), '1E3')
c.feature_options['numerical.expnumbers']['Symbol'] = 'k'
expect(one(c, '1E3'), 'error')
''', needs='the same text calculated again after an option that affects parsing has been changed', breaks='the old parse is reused'),
dict(id='c08-outer-params-leak', prop='C08', edits=[('features/structure/externalfunctions.py', "        calculator.vars = {}\n\n        # For each", "        calculator.vars = {k: v for k, v in backup_vars.items() if k.startswith('PARAM')}\n\n        # For each")],
 demo=r'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    c = calc()
    p = os.path.join(d, 'f')
    open(p, 'w').write('PARAM2 ||= 10\nPARAM1 + PARAM2')
    vals(c, "f = '{}'".format(p))
    expect(one(c, '@f(1)'), '11')
    vals(c, 'g = { @f(PARAM1) + PARAM2 }')
    expect(one(c, '@g(1, 2)'), 'error')
    vals(c, "PARAM2 = 5")
    expect(one(c, '@f(1)'), '11')
finally:
    shutil.rmtree(d)
''', needs='an external function with an optional parameter called where a PARAM of that number is visible', breaks='the external function sees a PARAM of its caller'),
dict(id='c10-dedupe-negative', prop='C10', edits=[('services/unitnormaliser.py', '''                    if power.to_decimal() != 0:
                        # Multiple''', '''                    if power.to_decimal() > 0:
                        # Multiple''')],
 demo=r'''
c = calc()
expect(one(c, '5 metre^-1 foot^-1').endswith('^-2'), True)
''', needs='two different units of one dimension with negative powers', breaks='simplification drops the units'),
dict(id='c10-remove-power', prop='C10', edits=[('services/unitnormaliser.py', '''                                for subunit in unitsfound:
                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
                                value = unit.addandconvert(value, closest_unit, power * multpower, True)''', '''                                for subunit in unitsfound:
                                    value = unit.removeandconvert(value, subunit.unit, subunit.power, True)
                                value = unit.addandconvert(value, closest_unit, power, True)''')],
 demo=r'''
c = calc()
print(one(c, '3 metres^4 seconds^-2'), one(c, '3 volts^2 amps^2'), one(c, '3 metres^2 grams^2'))
expect(one(c, '1'), '1')
''', needs='-', breaks='-'),
dict(id='c11-preferred-cache', prop='C11', edits=[('services/unitnormaliser.py', '''        system = self.get_preferred_system(ambiguous_unit.units.keys())
        return ambiguous_unit.units[system]''', '''        if not hasattr(ambiguous_unit, 'preferred_unit'):
            system = self.get_preferred_system(ambiguous_unit.units.keys())
            ambiguous_unit.preferred_unit = ambiguous_unit.units[system]
        return ambiguous_unit.preferred_unit''')],
 demo=r'''
c = calc()
a = one(c, '1 pint to litres')
c.unit_normaliser.systems_preference.reverse()
b = one(c, '1 pint to litres')
expect(a != b, True)
''', needs='the system preference changed after an ambiguous unit name has been used', breaks='the unit of the old preference is used'),
dict(id='c12-log-power', prop='C12', edits=[('features/numerical/bases.py', '''        power = 0
        while Number(base ** (power + 1)) <= val:
            power += 1
''', '''        power = 0
        if val.to_decimal() >= 1:
            power = int(math.log(float(val), base))
'''), ('features/numerical/bases.py', "class BasesFeature(Feature):", "import math\n\n\nclass BasesFeature(Feature):")],
 demo=r'''
c = calc()
for b, e in ((3, 5), (5, 3), (6, 3), (7, 5)):
    expect(one(c, 'base({}, {})'.format(b ** e, b)), '{}z1'.format(b) + '0' * e)
    expect(one(c, 'base({}, {})'.format(b ** e - 1, b)), '{}z'.format(b) + str(b - 1) * e)
expect(one(c, 'hex(281474976710655)'), '0x' + 'F' * 12)
expect(one(c, 'hex(1152921504606846975)'), '0x' + 'F' * 15)
''', needs='exact powers of some bases and integers too big for a float', breaks='a digit equal to the base or a leading zero is printed'),
dict(id='c20-lookback', prop='C20', also=['C01'], edits=[('objects/items.py', '''    i -= 1
    while i >= 0 and not items[i].functional():
        i -= 1
    if i >= 0:
        return items[i]
    return None
''', '''    for item in reversed(items[max(0, i - 3):i]):
        if item.functional():
            return item
    return None
''')],
 demo=r'''
c = calc()
expect(one(c, '3   -2'), '1')
''', needs='at least three spaces or comments before a minus sign', breaks='the minus sign is taken as the sign of a literal, so the values are multiplied'),
dict(id='c21-op-insert', prop='C21', edits=[('modularcalculator.py', "after = after.union(prec)", "after = set(prec)")],
 demo=r'''
c = ModularCalculator()
c.install_features(['structure.operators', 'numerical.decimalnumbers', 'boolean.booleans', 'nonfunctional.space', 'numerical.basicarithmetic', 'state.assignment'])
expect(one(c, '(1 < 2 + 3) then 1 else 2') if False else one(c, '1 + 1 == 2 then 5 else 6'), '5')
''', needs='a feature with tighter operators installed after one with looser ones', breaks='operators are inserted at the wrong precedence'),
dict(id='c22-shared-options', prop='C22', edits=[('features/nonfunctional/comments.py', '''    def default_options():
        return {
            'Symbol': '#'
        }
''', '''    options = {
        'Symbol': '#'
    }

    def default_options():
        return CommentsFeature.options
''')],
 demo=r'''
a = calc()
b = calc()
a.feature_options['nonfunctional.comments']['Symbol'] = '!'
expect(one(b, '1 # one'), '1')
''', needs='two calculators, an option of one is changed', breaks='the option of the other calculator changes too'),
dict(id='c22-same-settings', prop='C22', edits=[('numericalengine.py', '''        Number.set_precision(self.number_size, self.number_prec)
        Number.set_rounding(self.number_rounding)''', '''        settings = (self.number_size, self.number_prec, self.number_rounding)
        if NumericalEngine.current_settings != settings:
            Number.set_precision(self.number_size, self.number_prec)
            Number.set_rounding(self.number_rounding)
            NumericalEngine.current_settings = settings'''), ('numericalengine.py', '''class NumericalEngine(Engine):
''', '''class NumericalEngine(Engine):

    current_settings = None
''')],
 demo=r'''
import threading
c = calc()
out = []
t = threading.Thread(target=lambda: out.append(one(c, '10^40 + 1')))
t.start()
t.join()
expect(out[0], '1' + '0' * 39 + '1')
''', needs='a calculation in a thread other than the one the calculator was made in', breaks='the number size of the other thread is used'),
dict(id='c25-rshift-float', prop='C25', edits=[('features/numerical/bitwiseoperators.py', "        res = Number(int(vals[0]) >> int(vals[1]))", "        res = Number(int(int(vals[0]) / 2 ** int(vals[1])))")],
 demo=r'''
c = calc()
expect(one(c, '36893488147419103233 >> 1'), '18446744073709551616')
expect(one(c, '36893488147419103235 >> 1'), '18446744073709551617')
''', needs='an integer above 2^53', breaks='the shifted value loses its low bits'),
dict(id='c27-prefix-scale', prop='C27', edits=[('features/units/advancedunitprefixes.py', "('femto', 'f', Number('0.000000000000001'))", "('femto', 'f', Number('0.00000000000001'))")],
 demo=r'''
c = calc()
expect(one(c, '1 picogram to femtograms'), '1000 femtograms')
''', needs='a unit with the prefix femto', breaks='wrong scale'),
dict(id='c09-stone-scale', prop='C09', edits=[('features/unitdefinitions/distance.py', "unitscale = Number('25902068371200')", "unitscale = Number('25902068371200') / Number(10)")],
 demo=r'''
c = calc()
expect(one(c, '1 light day to light hours'), '24 light hours')
''', needs='light days', breaks='wrong scale'),
dict(id='c09-converted-cache', prop='C09', edits=[('services/unitnormaliser.py', '''        if fromunit != tounit:
            num = fromunit.convertfrom(num, relative)
            num = tounit.convertto(num, relative)
''', '''        if fromunit != tounit:
            if relative:
                # A relative conversion is only a factor, so work it out once
                if (fromunit, tounit) not in self.factors:
                    self.factors[(fromunit, tounit)] = tounit.convertto(fromunit.convertfrom(Number(1), relative), relative)
                num *= self.factors[(fromunit, tounit)]
            else:
                num = fromunit.convertfrom(num, relative)
                num = tounit.convertto(num, relative)
'''), ('services/unitnormaliser.py', "        self.prefixes = []\n", "        self.prefixes = []\n        self.factors = {}\n")],
 demo=r'''
c = calc()
a = one(c, '1 pint^2 to litres^2')
c.unit_normaliser.systems_preference.reverse()
b = one(c, '1 pint^2 to litres^2')
expect(a != b, True)
c.unit_normaliser.systems_preference.reverse()
expect(one(c, '1 US pint^2 to litres^2') if False else one(c, '1 pint^2 to litres^2'), a)
''', needs='unit powers or products of units with the same displayed name (the two kinds of pint) converted one after the other', breaks='the factor of the other unit is used'),
dict(id='c09-dimension-order', prop='C09', edits=[('objects/units.py', '''            existing.power += power
            if existing.power.to_decimal() == 0:
                self._del(existing)''', '''            existing.power += power
            if existing.power.to_decimal() == 0 and len(self) > 1:
                self._del(existing)''')],
 demo=r'''
c = calc()
expect(one(c, '6 metres / 2 metres'), '3')
expect(one(c, '(3 metres / 1 foot metre^-1 foot) + 1') != 'error', True)
''', needs='-', breaks='-'),
dict(id='c13-percent-places', prop='C13', edits=[('objects/number.py', "                context.prec = max(context.prec, dec_num.adjusted() + 2 + decimal_places)", "                context.prec = max(context.prec, dec_num.adjusted() + decimal_places)")],
 demo=r'''
c = calc()
c.number_size_set(20)
c.number_prec_set(10)
print(one(c, '1234567890.12345678901'))
''', needs='-', breaks='-'),
dict(id='c13-strip-zeros', prop='C13', edits=[('objects/number.py', '''            if val[-1] == '.':
                val = val[0:-1]
        return val''', '''            val = val.rstrip('.0') or '0'
        return val''')],
 demo=r'''
c = calc()
c.number_prec_set(2)
expect(one(c, '1 / 3 + 20 - 1/3 + 0.001'), '20')
expect(one(c, '100.001'), '100')
''', needs='a fraction which rounds to an integer ending in zero', breaks='zeros of the integer part are removed'),
dict(id='c17-split-cache', prop='C17', edits=[('features/strings/stringarrayfunctions.py', "XX", "YY")], demo='', needs='', breaks=''),
dict(id='c28-order', prop='C28', edits=[('features/numerical/specialfunctions.py', "out = f(*[int(v) for v in vals[:-1]], float(vals[-1]))", "out = f(*[int(float(v)) for v in vals[:-1]], float(vals[-1]))")], demo='', needs='', breaks=''),
dict(id='c28-cast', prop='C28', edits=[('features/numerical/specialfunctions.py', "        out = f(*[float(v) for v in vals])\n", "        # Whole numbers are passed as such, some functions are faster with them\n        out = f(*[int(v) if v.is_integer() else float(v) for v in vals])\n")],
 demo=r'''
c = calc()
import scipy.special
expect(one(c, 'sp_gamma(-0.5)').startswith('-3.5449'), True)
expect(one(c, 'sp_gamma(5)'), '24')
''', needs='-', breaks='-'),
dict(id='c28-inf', prop='C28', edits=[('features/numerical/specialfunctions.py', "            n = n.astype(float)\n        return Number(Decimal(n))", "            n = n.astype(float)\n        return Number(Decimal(float(numpy.nan_to_num(n, nan=n))))")],
 demo=r'''
c = calc()
expect(one(c, 'sp_gamma(0)'), 'error')
expect(one(c, 'sp_gammaln(-1)'), 'error')
expect(one(c, 'sp_ellipk(1)'), 'error')
''', needs='an argument at a pole of the function', breaks='a huge number is returned instead of an error'),
dict(id='c18-case-fold', prop='C18', edits=[('features/strings/stringcomparison.py', "XX", "YY")], demo='', needs='', breaks=''),
]
