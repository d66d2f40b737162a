"""Programs by the features they are written with: nothing but these features (and what they declare to depend on) may be needed."""

DEC = 'numerical.decimalnumbers'
AR = 'numerical.basicarithmetic'
ADV = 'numerical.advancedarithmetic'
SP = 'nonfunctional.space'
BR = 'structure.innerexpressions'
FN = 'structure.functions'
OP = 'structure.operators'
TER = 'structure.terminator'
STR = 'strings.strings'
ARR = 'arrays.arrays'
ASS = 'state.assignment'
UN = 'units.units'
BOOL = 'boolean.booleans'
DIST = 'unitdefinitions.distance'
TIME = 'unitdefinitions.time'
CONST = 'state.constants'

S = []


def add(feats, *texts):
    feats = [f for f in feats.split()] if isinstance(feats, str) else list(feats)
    for t in texts:
        S.append((tuple(feats), t))


add([DEC], '5', '-7.25', '0', '007', '123456789012345678901234567890.5')
add([DEC, AR], '5+3', '2*3-4/8', '-5*-2', '1/3', '7-10', '1/0', '2*3*4+5', '5+')
add([DEC, ADV, SP], '7 % 3', '7\\2', '-7\\2', '5 % 0', '-7 % 3', '7.5 \\ 2')
add([DEC, AR], '2^10', '2^-1', '2^3^2', '-2^2')
add([DEC, AR, ADV], '2+3*4^2', '2*3^2-7\\4')
add([DEC, SP, AR], ' 5 + 3 ', '5\t*\t2', '5 - -3')
add([DEC, BR, AR], '(5)', '(2+3)*4', '((1))', '2(3)', '()', '(1')
add([DEC, TER], '5\n6', '5\n\n6\n', '\n7')
add([TER], '\n', '\n\n')
add([SP], ' ', '\t ')
add(['nonfunctional.comments'], '# just a note', '#')
add([DEC, 'nonfunctional.comments', TER], '5#five\n6', '#x\n7')
add([DEC, 'nonfunctional.comments', SP], '5 # five', ' # c')
add([DEC, SP, ASS], 'abc = 5', 'abc = 1.5')
add([DEC, SP, ASS, TER, AR], 'abc = 5\nabc * 2', 'x1 = 2\ny1 = x1 + 1\ny1', 'q1 + 2', 'ab = 1\nab = ab + ab\nab')
add([DEC, SP, ASS, TER, 'state.assignmentoperators', AR], 'abc = 5\nabc += 3\nabc', 'abc = 5\nabc *= 2', 'abc = 7\nabc++\nabc', 'abc = 7\nabc--\nabc', 'abc ||= 4\nabc', 'abc = 9\nabc -= 2\nabc /= 2\nabc',
    'abc = 1\nabc ||= 2\nabc')
add([DEC, SP, ASS, TER, 'state.assignmentoperators', AR, ADV], 'abc = 5\nabc ^= 2\nabc', 'abc = 17\nabc %= 5\nabc', 'abc = 17\nabc \\= 5\nabc')
add([DEC, SP, ASS, TER, 'state.assignmentfunctions'], 'abc = 5\ndelete(abc)', 'abc = 5\ndelete(abc)\nabc', 'abc = 5\nabd = 6\nreset()\nabd')
add([DEC, 'numerical.percentagenumbers', AR], '50%', '50%*8', '12.5%+1')
add([DEC, 'numerical.expnumbers', AR], '5E3', '1.5E-2+1', '-2E2', 'scientific(1234,3)')
add([DEC, 'numerical.binarynumbers', AR], '0b101', '0b101+2', '-0b11', '0b1.1', 'bin(5)', 'bin(-2.5)', '0b10.01')
add([DEC, 'numerical.octalnumbers', AR], '0o17', '0o17+1', 'oct(64)', '0o7.4')
add([DEC, 'numerical.hexadecimalnumbers', AR], '0x1F', '0xff+1', 'hex(255)', '0xA.8')
add([DEC, 'numerical.arbitrarybasenumbers', AR], '7z16', '16zFF+1')
add([DEC, 'numerical.arbitrarybasenumbers'], 'base(255,16)', 'base(5,1)')
add([DEC, 'numerical.decimalfunction', 'numerical.hexadecimalnumbers'], 'dec(0x1F)', 'dec(5)')
add([DEC, SP, 'numerical.numericalrepresentation', 'numerical.hexadecimalnumbers', 'numerical.binarynumbers', 'numerical.octalnumbers'], '255 as hexadecimal', '5 as binary', '64 as octal', '0x10 as decimal')
add([DEC, SP, 'numerical.numericalrepresentation', 'numerical.percentagenumbers', 'numerical.expnumbers'], '0.5 as percentage', '1234 as scientific', '50% as decimal')
add([DEC, SP, 'numerical.bitwiseoperators'], '5 & 3', '5 | 3', '5 ^^ 3', '5 << 2', '20 >> 2', '~5', '~ 12', '5 & 3 | 8')
add([DEC, SP, 'numerical.bitwiseoperators', 'numerical.binarynumbers', 'numerical.hexadecimalnumbers'], '0b101 & 3', '~0b0101', '0xFF ^^ 0b1', '~0xF0')
add([DEC, 'numerical.numericalfunctions'], 'abs(-5)', 'floor(2.5)', 'ceil(2.5)', 'round(2.567,2)', 'fact(5)', 'exp(0)', 'log(100,10)', 'gcd(12,18)', 'lcm(4,6)', 'fact(-1)', 'abs()')
add([DEC, 'numerical.statisticalfunctions'], 'sum(1,2,3)', 'mean(1,2)', 'median(3,1,2)', 'mode(1,2,2)', 'max(1,5)', 'min(4,2)', 'stdev(1,2,3,4)', 'sum([1,2],[3,4])')
add([DEC, 'numerical.trigonometryfunctions'], 'sin(0)', 'cos(0)', 'tan(0)', 'acos(1)', 'sinh(0)', 'atan(0)', 'asin(2)')
add([DEC, 'numerical.trigonometryfunctions', UN, 'unitdefinitions.angle', SP], 'sin(90 degrees)', 'cos(0 radians)', 'asin(1)')
add([DEC, 'numerical.specialfunctions'], 'sp_gamma(5)', 'sp_jv(1,2)', 'sp_beta(5,2)')
add([DEC, 'numerical.numericalconstants', AR], 'pi', 'pi*2', 'e', 'tau')
add([ARR, DEC], '[1,2,3]', '[1..4]', '[1..9step2]', '[5..1]', '[]', '[1')
add([ARR, DEC, AR], '[1,2]+1', '[1,2]*[3,4]', '[1,2]+[1]')
add([ARR, DEC, 'arrays.arrayfunctions'], 'element([4,5],2)', 'count([1,2])', 'concat([1],[2])', 'reverse([1,2])', 'sort([3,1,2])', 'element([1],5)')
add([ARR, DEC, 'arrays.arrayfunctions', 'structure.inlinefunctions', SP, 'numerical.basicarithmetic', BOOL], 'ff = { PARAM1 > 2 }\nfilter([1,2,3,4], ff)')
add([STR], "'abc'", "''", "'it\\'s'", "'abc", "'a'+$'b'")
add([STR, DEC], "'ab'*$3", "5+$'a'")
add([STR, 'strings.stringfunctions', DEC], "length('abc')", "upper('abc')", "lower('ABC')", "substr('abcd',1,2)", "find('abc','c')", "replace('aXa','X','-')", "strip(' a ',' ')", 'length(5)')
add([STR, 'strings.stringarrayfunctions', ARR], "split('a,b',',')", "join(['a','b'],'-')", "join(['a','b'])")
add([STR, 'strings.stringcomparison'], "'a'<$'b'", "'a'==$'a'", "'A'==~'a'", "'b'>=~'A'", "'a'!=$'b'")
add([STR, 'strings.regex', DEC], "'abc'=~'b'", "'abc'!~'b'", "regexget('a1b2','[0-9]')", "regexsplit('a1b','[0-9]')", "regexsub('a1','[0-9]','x')", "regexcount('aaa','a')", "'a'=~'('",
    "regexget('a1b2','[0-9]',2)")
add([BOOL, SP], 'true', 'FALSE', 'true and false', 'not true', 'true or false', 'true xor true')
add([BOOL, DEC, SP, AR], '1 < 2', '2 >= 3', '1 == 1.0', '1 != 2', 'true then 1 else 2', '1 < 2 then 3 + 1 else 4', 'false then 1 else 2', '3 < 4 and 5 < 6', 'not (1 < 2)' if False else 'not false')
add([STR, 'dates.dates'], "'2020-01-01'")
add([SP, DEC, 'dates.datefunctions', TIME], "dateadd('2020-01-31', 1 day)", "datesubtract('2020-01-01', 1 second)", "datedifference('2020-01-01', '2020-01-02', hours)", "dateformat('2020-02-29')",
    "datedifference('2020-01-01', '2020-01-02')", "dateadd('2020-13-01', 1 day)", "dateadd('2020-01-01', 5)")
add([SP, DEC, 'dates.dateoperators', TIME], "'2020-01-31' +% 1 day", "'2020-01-01' -% 1 second", "'2020-01-01' +% 5")
add([CONST, DEC], '5')
add([OP, DEC], '5')
add([UN, DIST, DEC, SP], '5 meters', '1 mile to meters', '12 inches to feet', '1 METER', '-5.5 yards to feet')
add([UN, DIST, DEC, SP, 'units.unitsymbols'], '5 m', '3 mi to m', '5 m to ft')
add([UN, DIST, DEC, SP, 'units.unitsymbols', AR], '5 m^2', '5 m^2 to ft^2', '3 m * 4 m', '(2 m)^2' if False else '2 m / 4')
add([UN, DIST, TIME, DEC, SP], '5 meters to seconds')
add([UN, DIST, TIME, DEC, SP, AR, 'units.unitsymbols', 'units.basicunitprefixes'], '5 m + 3 cm', '5 m * 2', '10 m / 2 s', '5 m + 3 s', '5 m - 1 m', '6 m / 2 m')
add([UN, DIST, TIME, DEC, SP, AR, 'units.unitsymbols', 'units.basicunitprefixes'], '36 km/hour to m/s', '36 km to m', '1 km - 1 m')
add([UN, DIST, DEC, SP, 'units.basicunitprefixes'], '5 kilometers to meters', '5 centimeters', '1 millimeter to meters')
add([UN, DIST, DEC, SP, 'units.advancedunitprefixes'], '5 kilometers to meters', '1 attometer to meters')
add([UN, DIST, DEC, SP, 'units.advancedunitprefixes', 'units.unitsymbols'], '5 km to m', '1 am to m')
add([UN, DIST, DEC, SP, 'units.unitfunctions', 'units.unitsymbols'], 'compact(5000 m)', 'format(5.5 feet)', 'compact(5 m)', 'format(1.5 m, si)')
add([UN, 'units.unitconstants', DEC, SP, AR], 'speedoflight', 'earthgravity', 'Planck', 'speedoflight * 2 seconds', '-earthgravity' if False else 'earthgravity + 1 meters / 1 seconds^2')
add(['unitdefinitions.allunitdefinitions', DEC, SP], '5 newtons', '1 byte to bits', '5 kelvin to celsius', '100 celsius to fahrenheit', '1 acre to hectares', '1 pint to liters', '3 volts', '1 day to hours')
add(['unitdefinitions.temperature', DEC, SP], '5 kelvin', '0 celsius to kelvin', '32 fahrenheit to celsius')
add(['unitdefinitions.data', DEC, SP], '1 byte to bits', '8 bits to bytes')
for name, text in (('absorbeddose', '5 grays'), ('angle', '180 degrees'), ('area', '1 acre'), ('capacitance', '5 farads'), ('catalyticactivity', '5 katals'),
                   ('electricalconductance', '5 siemens'), ('electricalpotential', '5 volts'), ('electriccharge', '5 coulombs'), ('electriccurrent', '5 amperes'), ('energy', '5 joules'),
                   ('equivalentdose', '5 sieverts'), ('force', '5 newtons'), ('frequency', '5 hertz'), ('illuminance', '5 lux'), ('inductance', '5 henries'), ('luminousflux', '5 lumens'),
                   ('luminousintensity', '5 candela'), ('magneticflux', '5 webers'), ('magneticfluxdensity', '5 teslas'), ('mass', '5 pounds'), ('power', '5 watts'), ('pressure', '5 pascals'),
                   ('radioactivity', '5 becquerels'), ('resistance', '5 ohms'), ('solidangle', '5 steradians'), ('substance', '5 moles'), ('velocity', '5 knots'), ('volume', '5 liters')):
    add(['unitdefinitions.' + name, DEC, SP], text, '-2.5' + text[1:])
add(['structure.inlinefunctions', DEC, AR, SP], 'ff = { PARAM1 + 1 }\n@ff(4)', 'ff = {\nloc = PARAM1 * 2\nloc + 1\n}\n@ff(3)', '@nofunc(1)', 'ff = { 5 }\n@ff()')
add(['structure.inlinefunctions', DEC, AR, SP, ARR], 'ff = { PARAM1 * 2 }\n@ff([1,2])')
add(['structure.functionpointers', DEC], '@nofunc(1)', '@nofunc()')
add(['structure.externalfunctions', DEC, SP], "gg = '/nonexistent/file'\n@gg(1)")

# the same programs on the smallest sets: what the features in use declare to depend on brings in the rest
DEPENDED = [
    ('numerical.advancedarithmetic numerical.decimalnumbers',
     ['7\\2', '-7\\2', '2*3^2-7\\4']),
    ('numerical.basicarithmetic numerical.decimalnumbers',
     ['2+3*4^2']),
    ('numerical.decimalnumbers structure.innerexpressions',
     ['(5)', '((1))']),
    ('nonfunctional.comments nonfunctional.space',
     [' # c']),
    ('nonfunctional.space numerical.decimalnumbers state.assignmentoperators structure.terminator',
     ['abc = 5\nabc += 3\nabc', 'abc = 5\nabc *= 2', 'abc = 7\nabc++\nabc', 'abc = 7\nabc--\nabc', 'abc ||= 4\nabc', 'abc = 9\nabc -= 2\nabc /= 2\nabc', 'abc = 1\nabc ||= 2\nabc', 'abc = 5\nabc ^= 2\nabc', 'abc = 17\nabc %= 5\nabc', 'abc = 17\nabc \\= 5\nabc']),
    ('nonfunctional.space numerical.decimalnumbers state.assignmentfunctions structure.terminator',
     ['abc = 5\ndelete(abc)', 'abc = 5\ndelete(abc)\nabc', 'abc = 5\nabd = 6\nreset()\nabd']),
    ('numerical.percentagenumbers',
     ['50%']),
    ('numerical.basicarithmetic numerical.percentagenumbers',
     ['50%*8', '12.5%+1']),
    ('numerical.expnumbers',
     ['5E3', '-2E2', 'scientific(1234,3)']),
    ('numerical.basicarithmetic numerical.expnumbers',
     ['1.5E-2+1']),
    ('numerical.binarynumbers',
     ['0b101', '-0b11', '0b1.1', '0b10.01']),
    ('numerical.binarynumbers numerical.decimalnumbers',
     ['bin(5)', 'bin(-2.5)']),
    ('numerical.octalnumbers',
     ['0o17', '0o7.4']),
    ('numerical.decimalnumbers numerical.octalnumbers',
     ['oct(64)']),
    ('numerical.hexadecimalnumbers',
     ['0x1F', '0xA.8']),
    ('numerical.decimalnumbers numerical.hexadecimalnumbers',
     ['hex(255)']),
    ('numerical.arbitrarybasenumbers',
     ['7z16']),
    ('numerical.decimalfunction numerical.hexadecimalnumbers',
     ['dec(0x1F)']),
    ('numerical.decimalfunction',
     ['dec(5)']),
    ('nonfunctional.space numerical.decimalnumbers numerical.hexadecimalnumbers numerical.numericalrepresentation',
     ['255 as hexadecimal', '0x10 as decimal']),
    ('nonfunctional.space numerical.binarynumbers numerical.decimalnumbers numerical.numericalrepresentation',
     ['5 as binary']),
    ('nonfunctional.space numerical.decimalnumbers numerical.numericalrepresentation numerical.octalnumbers',
     ['64 as octal']),
    ('nonfunctional.space numerical.numericalrepresentation numerical.percentagenumbers',
     ['0.5 as percentage', '50% as decimal']),
    ('nonfunctional.space numerical.expnumbers numerical.numericalrepresentation',
     ['1234 as scientific']),
    ('numerical.bitwiseoperators numerical.decimalnumbers',
     ['~5']),
    ('nonfunctional.space numerical.binarynumbers numerical.bitwiseoperators numerical.decimalnumbers',
     ['0b101 & 3']),
    ('numerical.binarynumbers numerical.bitwiseoperators',
     ['~0b0101']),
    ('nonfunctional.space numerical.binarynumbers numerical.bitwiseoperators numerical.hexadecimalnumbers',
     ['0xFF ^^ 0b1']),
    ('numerical.bitwiseoperators numerical.hexadecimalnumbers',
     ['~0xF0']),
    ('nonfunctional.space numerical.decimalnumbers numerical.trigonometryfunctions unitdefinitions.angle',
     ['sin(90 degrees)', 'cos(0 radians)']),
    ('numerical.decimalnumbers numerical.trigonometryfunctions',
     ['asin(1)']),
    ('numerical.numericalconstants',
     ['pi', 'e', 'tau']),
    ('arrays.arrayfunctions numerical.decimalnumbers',
     ['element([4,5],2)', 'count([1,2])', 'concat([1],[2])', 'reverse([1,2])', 'sort([3,1,2])']),
    ('strings.stringfunctions',
     ["length('abc')", "upper('abc')", "lower('ABC')", "find('abc','c')", "replace('aXa','X','-')", "strip(' a ',' ')"]),
    ('numerical.decimalnumbers strings.stringfunctions',
     ["substr('abcd',1,2)", 'length(5)']),
    ('strings.stringarrayfunctions',
     ["split('a,b',',')", "join(['a','b'],'-')", "join(['a','b'])"]),
    ('strings.stringcomparison',
     ["'a'<$'b'", "'a'==$'a'", "'A'==~'a'", "'b'>=~'A'", "'a'!=$'b'"]),
    ('strings.regex',
     ["'abc'=~'b'", "'abc'!~'b'", "regexget('a1b2','[0-9]')", "regexsplit('a1b','[0-9]')", "regexsub('a1','[0-9]','x')", "regexcount('aaa','a')"]),
    ('numerical.decimalnumbers strings.regex',
     ["regexget('a1b2','[0-9]',2)"]),
    ('boolean.booleans',
     ['true', 'FALSE']),
    ('boolean.booleans nonfunctional.space numerical.decimalnumbers',
     ['1 < 2', '2 >= 3', '1 == 1.0', '1 != 2', 'true then 1 else 2', 'false then 1 else 2', '3 < 4 and 5 < 6']),
    ('boolean.booleans nonfunctional.space',
     ['not false']),
    ('strings.strings',
     ["'2020-01-01'"]),
    ('dates.datefunctions nonfunctional.space numerical.decimalnumbers',
     ["dateadd('2020-01-31', 1 day)", "datesubtract('2020-01-01', 1 second)"]),
    ('dates.datefunctions nonfunctional.space',
     ["datedifference('2020-01-01', '2020-01-02', hours)", "datedifference('2020-01-01', '2020-01-02')"]),
    ('dates.datefunctions',
     ["dateformat('2020-02-29')"]),
    ('dates.dateoperators nonfunctional.space numerical.decimalnumbers',
     ["'2020-01-31' +% 1 day", "'2020-01-01' -% 1 second"]),
    ('numerical.decimalnumbers',
     ['5', '5']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance',
     ['5 meters', '1 mile to meters', '12 inches to feet', '1 METER', '-5.5 yards to feet', '5 centimeters']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.unitsymbols',
     ['5 m', '3 mi to m', '5 m to ft']),
    ('nonfunctional.space numerical.basicarithmetic numerical.decimalnumbers unitdefinitions.distance units.unitsymbols',
     ['5 m^2', '5 m^2 to ft^2', '3 m * 4 m', '2 m / 4', '5 m + 3 cm', '5 m * 2', '5 m - 1 m', '6 m / 2 m']),
    ('nonfunctional.space numerical.basicarithmetic numerical.decimalnumbers unitdefinitions.distance unitdefinitions.time units.unitsymbols',
     ['10 m / 2 s']),
    ('nonfunctional.space numerical.basicarithmetic numerical.decimalnumbers unitdefinitions.distance unitdefinitions.time units.basicunitprefixes units.unitsymbols',
     ['36 km/hour to m/s']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.basicunitprefixes units.unitsymbols',
     ['36 km to m']),
    ('nonfunctional.space numerical.basicarithmetic numerical.decimalnumbers unitdefinitions.distance units.basicunitprefixes units.unitsymbols',
     ['1 km - 1 m']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.basicunitprefixes',
     ['5 kilometers to meters', '1 millimeter to meters']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.advancedunitprefixes',
     ['5 kilometers to meters', '1 attometer to meters']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.advancedunitprefixes units.unitsymbols',
     ['5 km to m', '1 am to m']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.unitfunctions units.unitsymbols',
     ['compact(5000 m)', 'compact(5 m)', 'format(1.5 m, si)']),
    ('nonfunctional.space numerical.decimalnumbers unitdefinitions.distance units.unitfunctions',
     ['format(5.5 feet)']),
    ('units.unitconstants',
     ['speedoflight', 'earthgravity', 'Planck']),
    ('nonfunctional.space numerical.basicarithmetic numerical.decimalnumbers units.unitconstants',
     ['speedoflight * 2 seconds', 'earthgravity + 1 meters / 1 seconds^2']),
    ('nonfunctional.space numerical.decimalnumbers structure.inlinefunctions',
     ['ff = { 5 }\n@ff()']),
]
for fs, ts in DEPENDED:
    add(fs, *ts)
