F = 'features/'
BUGS = [
dict(id='c25-width-last', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "                width = max(width, val.binary_number_width)\n", "                width = val.binary_number_width\n")],
 demo=r'''
c = calc()
expect(one(c, '0b1010 & 0b0100'), '0b0000')
expect(one(c, '0b00001010 & 0b01'), '0b00000000')
''', needs='operands of different widths, the wider one first', breaks='the result loses the width of the wider operand'),
dict(id='c25-not-any-width', prop='C25', edits=[(F + 'numerical/bitwiseoperators.py', "        if is_binary and hasattr(dec_num, 'binary_number_width'):", "        if hasattr(dec_num, 'binary_number_width'):")],
 demo=r'''
c = calc()
expect(one(c, '~0b0011'), '0b1100')
x = one(c, '~(0b00001010 as hexadecimal)')
expect(x, one(c, '~0xA'))
''', needs='a hexadecimal number made from a wide binary one', breaks='its hidden binary width is used'),
dict(id='c12-width-fraction', prop='C12', edits=[(F + 'numerical/bases.py', "        split_num[1] = split_num[1].zfill(width)\n        return ''.join(split_num)", "        return split_num[0] + (split_num[1] + split_num[2]).zfill(width)")],
 demo=r'''
c = calc()
expect(one(c, '0b0011 + 0b0001'), '0b100')
expect(one(c, '0b0001.1'), '0b0001.1')
''', needs='a padded binary literal with a fraction', breaks='the padding counts the fraction'),
dict(id='c12-places-shared', prop='C12', edits=[(F + 'numerical/bases.py', "places < self.number_prec):", "len(string) < self.number_prec + 1):")],
 demo=r'''
c = calc()
expect(one(c, '0x0.8 * 1'), '0x0.8')
expect(one(c, '0b' + '1' * 40 + '.01'), '0b' + '1' * 40 + '.01')
''', needs='a long integer part with a fraction', breaks='the fraction is dropped'),
dict(id='c19-utc-zero', prop='C19', edits=[(F + 'dates/dates.py', "        if dt.utcoffset() is None:", "        if not dt.utcoffset():")],
 demo=r'''
c = calc()
expect(one(c, "'2024-01-01T10:00:00+0200' +% 1 hour"), '2024-01-01T11:00:00+0200')
expect(one(c, "'2024-01-01T10:00:00+0000' +% 1 hour"), '2024-01-01T11:00:00+0000')
''', needs='a date in the zone with offset zero', breaks='the zone is lost'),
dict(id='c19-diff-float', prop='C19', edits=[(F + 'dates/datefunctions.py', "seconds = Number(td // timedelta(microseconds=1), 1000000)", "seconds = Number(int(td.total_seconds() * 1000000), 1000000)")],
 demo=r'''
c = calc()
expect(one(c, "datedifference('2024-01-01', '2024-01-02')"), '1 day')
expect(one(c, "datedifference('1024-01-01T00:00:00.000001', '2024-01-02', seconds)"), one(c, "(datedifference('1024-01-01', '2024-01-02', seconds)) - (0.000001 seconds)"))
''', needs='a long difference with microseconds', breaks='it is off by a microsecond'),
dict(id='c21-date-time-dep', prop='C21', edits=[(F + 'dates/datefunctions.py', "        return ['dates.dates', 'structure.functions', 'unitdefinitions.time']", "        return ['dates.dates', 'structure.functions', 'units.units']")],
 demo=r'''
c = ModularCalculator()
c.install_features(['dates.datefunctions', 'strings.strings', 'numerical.decimalnumbers', 'nonfunctional.space'])
expect(one(c, "datedifference('2024-01-01', '2024-01-02') == datedifference('2024-01-01', '2024-01-02')") != 'x', True)
c.install_features(['unitdefinitions.time'])
c = ModularCalculator()
c.install_features(['dates.datefunctions', 'strings.strings', 'numerical.decimalnumbers', 'nonfunctional.space'])
expect(one(c, "datedifference('2024-01-01', '2024-01-02')") != 'error', True)
''', needs='installing date functions by themselves', breaks='they do not work without units of time'),
dict(id='c21-after-installs', prop='C21', edits=[('modularcalculator.py', "                    if do_before not in self.installed_features and do_before in self.features_to_install:", "                    if do_before not in self.installed_features:")],
 demo=r'''
c = ModularCalculator()
c.install_features(['numerical.binarynumbers'])
expect('numerical.numericalrepresentation' in c.installed_features, False)
''', needs='a feature with an ordering hint for one that is not wanted', breaks='that one is installed too'),
dict(id='c11-format-exact', prop='C11', edits=[(F + 'units/unitfunctions.py', "            if num.to_decimal() >= 1 or last:", "            if num.to_decimal() > 1 or last:")],
 demo=r'''
c = calc()
expect(one(c, "format(90 minutes)"), '1 hour, 30 minutes')
expect(one(c, "format(3600 seconds)"), '1 hour')
''', needs='a quantity of exactly one larger unit', breaks='the smaller unit is used'),
dict(id='c06-state-functional', prop='C06', edits=[('engine.py', "                    if 'include_state' in flags and flags['include_state']:", "                    if 'include_state' in flags and flags['include_state'] and result.has_result():")],
 demo=r'''
c = calc()
r = c.calculate('x = 5\n# note\n', {'include_state': True})
expect([x.state is not None for x in r.results], [True] * len(r.results))
''', needs='a statement that is only a comment', breaks='it has no state'),
dict(id='c27-underscore', prop='C27', edits=[(F + 'units/units.py', "        return char.isalnum() or char == '_'", "        return char.isalnum()")],
 demo=r'''
c = calc()
expect(one(c, 'x_1 = 5\nx_1 + 1'), '6')
expect(one(c, 'm_1 = 5\nm_1 + 1'), '6')
''', needs='a name starting with a unit and an underscore', breaks='it is read as a unit'),
dict(id='c14-memo', prop='C14', edits=[('objects/operators.py', "                try:\n                    res = self.call(calculator, input_row, flags)\n", "                key = [repr(r.value) for r in input_row]\n                try:\n                    if i > 0 and key == last_key and not isinstance(results[-1].value, Exception):\n                        res = results[-1]\n                    else:\n                        res = self.call(calculator, input_row, flags)\n                    last_key = key\n")],
 demo=r'''
c = calc()
expect(one(c, '[2, 2, 3] * 2'), ['4', '4', '6'])
expect(one(c, '[2 m, 2 km] * 2'), ['4 meters', '4 kilometers'])
''', needs='neighbouring elements with equal numbers and different units', breaks='the earlier result is used again'),
dict(id='c28-tiny', prop='C28', edits=[(F + 'numerical/specialfunctions.py', "out = f(*[float(v) for v in vals])", "out = f(*[float(v.to_string()) for v in vals])")],
 demo=r'''
c = calc()
expect(one(c, 'sp_erf(0.5)') != 'error', True)
v = c.calculate('sp_erf(1e-20) * 1e20').results[0].value
import math
expect(abs(float(v) - 2 / math.sqrt(math.pi)) < 1e-9, True)
v = c.calculate('sp_erf(1e-40) * 1e40').results[0].value
expect(abs(float(v) - 2 / math.sqrt(math.pi)) < 1e-9, True)
''', needs='an argument with more decimal places than are displayed', breaks='it is cut off'),
dict(id='c10-left-inverse', prop='C10', edits=[('services/unitnormaliser.py', "            for power in (Number(1), Number(-1)):\n                dimensions = dimensionlist.multiply(power)\n\n", "            for power in (Number(1),):\n                dimensions = dimensionlist.multiply(power)\n\n")],
 demo=r'''
c = calc()
expect(one(c, '(5 metres) * (2 metres)'), '10 square meters') if False else None
expect(one(c, '(6 metres) * (3 / (2 km))'), one(c, '(6 metres) * (0.0015 / metre)'))
''', needs='a quantity times another with an inverse unit of the same dimension', breaks='it is not cancelled'),
dict(id='c09-power-scale', prop='C09', edits=[('services/unitnormaliser.py', "            if len(unit.list()) != 1 or unit.list()[0].power != Number(1):", "            if len(unit.list()) != 1 or abs(unit.list()[0].power) != Number(1):")],
 demo=r'''
c = calc()
expect(one(c, '(5 metres) to cm'), '500 centimeters')
expect(one(c, '(9 celsius^-1) to fahrenheit^-1'), one(c, '(18 celsius^-1) to fahrenheit^-1 / 2') if False else '5 degrees fahrenheit^-1')
''', needs='an inverse temperature', breaks='the offset is added'),
dict(id='c11-prefix-exact', prop='C11', edits=[(F + 'units/unitfunctions.py', "            if new_num.to_decimal() >= 1 or prefixedunit == systemunits[-1]:", "            if new_num.to_decimal() > 1 or prefixedunit == systemunits[-1]:")],
 demo=r'''
c = calc()
expect(one(c, "format(1000 metres)"), '1 kilometer')
''', needs='exactly one of a prefixed unit', breaks='the smaller prefix is used'),
dict(id='c07-array-normalise', prop='C07', edits=[('objects/operators.py', "                            values[i] = values[i].copy()\n", "")],
 demo=r'''
c = calc()
c.calculate('a = [1 m, 2 km]')
c.calculate('sum(a)')
expect(one(c, 'a'), ['1 meter', '2 kilometers'])
c.calculate('b = [0x1F, 2]')
c.calculate('sum(b)')
expect(one(c, 'b'), ['0x1F', '2'])
''', needs='an array variable with different units', breaks='using it changes it'),
dict(id='c22-systems-shared', prop='C22', edits=[('objects/units.py', "        self.systems = self.systems.copy()\n", "")],
 demo=r'''
c = calc()
a = [sorted(u.systems) for u in calc('Scientific').unit_normaliser.list_units() if hasattr(u, 'systems')]
b = calc('Scientific')
for u in b.unit_normaliser.list_units():
    if hasattr(u, 'systems') and u.systems is not None:
        u.systems.append('mine')
d = [sorted(u.systems) for u in calc('Scientific').unit_normaliser.list_units() if hasattr(u, 'systems')]
expect(d == a, True)
''', needs='a host that adds a unit to a system of its own', breaks='every calculator made later sees it'),
dict(id='c13-round-percent', prop='C23', edits=[(F + 'numerical/numericalfunctions.py', "            places += vals[0].number_cast['places_offset']", "            places = max(places, vals[0].number_cast['places_offset'])")],
 demo=r'''
c = calc()
expect(one(c, 'round(12.345%)'), '12%')
expect(one(c, 'round(12.345%, 1)'), '12.3%')
''', needs='rounding a percentage to places', breaks='places are lost'),
dict(id='c02-comment-cr', prop='C02', edits=[(F + 'nonfunctional/comments.py', '            i = next.find("\\n")\n            if i == -1:\n                i = len(next)\n            return [CommentItem(next[0:i])], i, None', '            i = len(next.splitlines()[0])\n            return [CommentItem(next[0:i])], i, None')],
 demo=r'''
c = calc()
expect(vals(c, '1 + 2 # note\n4'), ['3', '4'])
expect(vals(c, '1 + 2 # note\x0c + 5\n4'), ['3', '4'])
''', needs='a line separator other than newline inside a comment', breaks='the comment ends there'),
]
