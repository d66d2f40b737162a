# "performance optimisations": caches with a key or a lifetime that is slightly wrong
F = 'features/'
BUGS = [
dict(id='c27-preferred-cache', prop='C27', edits=[('services/unitnormaliser.py', """    def get_preferred_unit(self, ambiguous_unit):
        system = self.get_preferred_system(ambiguous_unit.units.keys())
        return ambiguous_unit.units[system]
""", """    def get_preferred_unit(self, ambiguous_unit):
        if ambiguous_unit not in self.preferred_cache:
            system = self.get_preferred_system(ambiguous_unit.units.keys())
            self.preferred_cache[ambiguous_unit] = ambiguous_unit.units[system]
        return self.preferred_cache[ambiguous_unit]
"""), ('services/unitnormaliser.py', "        self.systems_preference = []\n", "        self.systems_preference = []\n        self.preferred_cache = {}\n")],
 demo=r'''
c = calc()
c.unit_normaliser.systems_preference = ['us', 'uk', 'si']
a = one(c, '1 gallon to litres')
c.unit_normaliser.systems_preference = ['uk', 'us', 'si']
b = one(c, '1 gallon to litres')
if a == b: expect(a, 'other than ' + str(b))
''', needs='the preference changed after an ambiguous unit was used', breaks='the old preference stays in force'),
dict(id='c06-snapshot-cache', prop='C06', edits=[('engine.py', "                        result.set_state(self.vars.copy())\n", """                        if last_state is None or last_state.keys() != self.vars.keys():
                            last_state = self.vars.copy()
                        result.set_state(last_state)
"""), ('engine.py', "        response = CalculatorResponse()\n", "        response = CalculatorResponse()\n        last_state = None\n")],
 demo=r'''
c = calc()
r = c.calculate('a = 1\na = 2', {'include_state': True})
expect([str(x.state['a'][0].to_string(c)) for x in r.results], ['1', '2'])
''', needs='a statement that overwrites an existing variable', breaks='the snapshot of the earlier statement is reused'),
dict(id='c18-match-cache', prop='C18', edits=[(F + 'strings/regex.py', """    def op_regex(self, vals, units, refs, flags):
        return OperationResult((re.search(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0])) is not None))
""", """    match_cache = {}

    def op_regex(self, vals, units, refs, flags):
        text, pattern = StringsFeature.string(self, vals[0]), StringsFeature.string(self, vals[1])
        key = hash(text + pattern)
        if key not in RegexFeature.match_cache:
            RegexFeature.match_cache[key] = re.search(pattern, text) is not None
        return OperationResult(RegexFeature.match_cache[key])
""")],
 demo=r'''
c = calc()
expect(one(c, "'ab' =~ 'c'"), False)
expect(one(c, "'' =~ 'abc'"), False)
expect(one(c, "'abc' =~ ''"), True)
''', needs='another text and pattern that join to the same characters', breaks='the result of the earlier match is given'),
dict(id='c29-date-cache', prop='C29', edits=[(F + 'dates/dates.py', """    def string_to_date(self, val):
        for attempt in attempt_order:
            try:
                return datetime.strptime(val, self.feature_options['dates.dates'][attempt])
            except ValueError:
""", """    parsed = {}

    def string_to_date(self, val):
        for attempt in attempt_order:
            try:
                if (attempt, val) not in DatesFeature.parsed:
                    DatesFeature.parsed[(attempt, val)] = datetime.strptime(val, self.feature_options['dates.dates'][attempt])
                return DatesFeature.parsed[(attempt, val)]
            except ValueError:
""")],
 demo=r'''
c = calc()
expect(one(c, "'2020-01-02' +% 0 s"), '2020-01-02')
c.feature_options['dates.dates']['Date_Format'] = '%Y-%d-%m'
for k in c.feature_options['dates.dates']:
    if c.feature_options['dates.dates'][k] == '%Y-%m-%d': c.feature_options['dates.dates'][k] = '%Y-%d-%m'
expect(one(c, "'2020-01-02' +% 1 day"), '2020-02-02')
''', needs='a date format changed after the same text was read', breaks='the text keeps its old meaning'),
dict(id='c22-inline-cache', prop='C22', edits=[(F + 'structure/inlinefunctions.py', """    @staticmethod
    def handle(calculator, ref):
        # Inline function definition to execute
""", """    handled = {}

    @staticmethod
    def handle(calculator, ref):
        # The same text always means the same function
        if ref.text in InlineFunctionsPointerHandler.handled:
            return InlineFunctionsPointerHandler.handled[ref.text]
        # Inline function definition to execute
"""), (F + 'structure/inlinefunctions.py', """        func.auto_convert_numerical_result = False

        return func
""", """        func.auto_convert_numerical_result = False

        InlineFunctionsPointerHandler.handled[ref.text] = func
        return func
""")],
 demo=r'''
c, d = calc(), calc()
t = 'f = {abs(kk)}\n@f(1)'
expect(one(c, 'kk = 1\n' + t), '1')
expect(one(d, 'kk = 2\n' + t), '2')
''', needs='two calculators with a function of the same text', breaks="the other calculator's variables are read"),
dict(id='c30-must-cache', prop='C30', edits=[('objects/operators.py', """    def input_must_be_type(self, i, obj_type, sub_type=None):
        found_type = False
""", """    def input_must_be_type(self, i, obj_type, sub_type=None):
        if (i, obj_type) not in self.must_cache:
            self.must_cache[(i, obj_type)] = self.find_must_be_type(i, obj_type, sub_type)
        return self.must_cache[(i, obj_type)]

    def find_must_be_type(self, i, obj_type, sub_type):
        found_type = False
"""), ('objects/operators.py', "        self.unit_restrictions = []\n", "        self.unit_restrictions = []\n        self.must_cache = {}\n")],
 demo=r'''
from modularcalculator.objects.operators import *
from modularcalculator.features.structure.functions import FunctionDefinition
c = calc()
def cat(self, vals, units, refs, flags):
    return OperationResult(repr([x.value if isinstance(x.value, str) else 'n' for x in vals[0]]))
f = FunctionDefinition('Custom', 'cat', '', ['a'], cat, 1, 1, 'array[string]')
c.funcs['cat'] = f
expect(one(c, "cat(['1', '2'])"), "['1', '2']")
expect(one(c, "cat('1', '2')"), "['1', '2']")
expect(one(c, "cat(['1', '2'])"), "['1', '2']")
''', needs='a one-array function of text elements first called with several arguments', breaks='its elements are turned into numbers'),
dict(id='c12-power-key', prop='C12', edits=[(F + 'numerical/bases.py', "            dec += Number(c_val) * (Number(base) ** Number(power))\n", """            key = base * 40 + power
            if key not in BasesFeature.powers:
                BasesFeature.powers[key] = Number(base) ** Number(power)
            dec += Number(c_val) * BasesFeature.powers[key]
"""), (F + 'numerical/bases.py', "    digits = '0123", "    powers = {}\n\n    digits = '0123")],
 demo=r'''
c = calc()
expect(one(c, '0b1' + '0' * 41 + ' + 0'), '0b1' + '0' * 41)
expect(one(c, '(3z12) / 1 + 0.0 == 5'), True)
expect(one(c, '0 + 3z12'), '5')
''', needs='a number of more than 40 digits and then one of the next base', breaks='the place values get mixed up'),
dict(id='c02-parse-cache', prop='C02', edits=[('engine.py', """                statements, length, return_flags = self.parse(expr, flags)

                for i, items""", """                key = expr.rstrip(' ')
                if flags.get('parse_only') and self.parsed is not None and self.parsed[0] == key:
                    statements, length, return_flags = self.parsed[1]
                else:
                    statements, length, return_flags = self.parse(expr, flags)
                    self.parsed = (key, (statements, length, return_flags))

                for i, items"""), ('engine.py', "        self.vars = {}\n\n", "        self.vars = {}\n        self.parsed = None\n\n")],
 demo=r'''
c = calc()
for t in ('1 + 2', '1 + 2 ', '1 + 2  '):
    expect(''.join(r.expression for r in c.calculate(t, {'parse_only': True}).results), t)
''', needs='the same text again with another number of spaces at the end', breaks='the earlier statements are given'),
dict(id='c11-system-cache', prop='C11', edits=[('services/unitnormaliser.py', "    def get_system(self, system, dimension=None):\n        units = []\n", "    def get_system(self, system, dimension=None):\n        key = (system, len(self.units.get(dimension, [])))\n        if key in self.system_cache:\n            return self.system_cache[key]\n        units = []\n"),
 ('services/unitnormaliser.py', "        return sorted(units, key=lambda u: u.convertfrom(Number(1), False), reverse=True)\n", "        self.system_cache[key] = sorted(units, key=lambda u: u.convertfrom(Number(1), False), reverse=True)\n        return self.system_cache[key]\n"),
 ('services/unitnormaliser.py', "        self.systems_preference = []\n", "        self.systems_preference = []\n        self.system_cache = {}\n")],
 demo=r'''
c = calc()
n = c.unit_normaliser
sizes = {}
for d, us in n.units.items():
    for s in ('si', 'us', 'uk'):
        n.system_cache = {}
        want = [u.plural() for u in n.get_system(s, d)]
        sizes.setdefault((s, len(us)), []).append((d, want))
c = calc()
for (s, k), l in sizes.items():
    for d, want in l:
        expect([u.plural() for u in c.unit_normaliser.get_system(s, d)], want)
''', needs='two dimensions with the same number of units', breaks='a quantity is formatted with units of another dimension'),
dict(id='c13-text-cache', prop='C13', edits=[('objects/number.py', """        dec_num = self.to_decimal()
        with localcontext() as context:""", """        if getattr(self, 'text', None) is not None and self.text[0] == decimal_places:
            return self.text[1]
        dec_num = self.to_decimal()
        with localcontext() as context:"""), ('objects/number.py', """            if val[-1] == '.':
                val = val[0:-1]
        return val
""", """            if val[-1] == '.':
                val = val[0:-1]
        self.text = (decimal_places, val)
        return val
""")],
 demo=r'''
c = calc()
c.number_prec_set(2)
r = c.calculate('a = 1/8').results[-1].value
expect(r.to_string(c), '0.13')
c.number_set_rounding('ROUND_DOWN')
expect(r.to_string(c), '0.12')
expect(one(c, 'a'), '0.12')
''', needs='the rounding mode changed after a number was shown', breaks='the text rounded the old way is shown'),
dict(id='c22-number-memo', prop='C22', edits=[('numericalengine.py', """        for number_type in self.number_types.values():
            num = number_type.parse(self, val)
            if num is not None:
                return num
""", """        if isinstance(val, str) and val in NumericalEngine.parsed_numbers:
            return NumericalEngine.parsed_numbers[val].copy()
        for number_type in self.number_types.values():
            num = number_type.parse(self, val)
            if num is not None:
                if isinstance(val, str):
                    NumericalEngine.parsed_numbers[val] = num
                return num
"""), ('numericalengine.py', "class NumericalEngine(Engine):\n", "class NumericalEngine(Engine):\n\n    parsed_numbers = {}\n")],
 demo=r'''
from modularcalculator.modularcalculator import ModularCalculator
a, b = ModularCalculator('Computing'), ModularCalculator('Basic')
a.calculate("'0x1F' + 1")
from modularcalculator.objects.exceptions import CalculatorException
expect(b.validate_number('0x1F'), False)
''', needs='a text read as a number by a calculator with more features', breaks='a calculator without those features reads it too'),
dict(id='c23-sum-memo', prop='C23', edits=[(F + 'numerical/statisticalfunctions.py', "SUMHOOK", "SUMHOOK")],
 demo='', needs='', breaks=''),
dict(id='c26-type-memo', prop='C26', edits=[('objects/operators.py', """        if obj_type in calculator.validators and calculator.validators[obj_type](calculator, value, unit, ref):
            return True
        return False
""", """        if isinstance(value, str):
            if (obj_type, value) not in self.checked:
                self.checked[(obj_type, value)] = obj_type in calculator.validators and calculator.validators[obj_type](calculator, value, unit, ref)
            return self.checked[(obj_type, value)]
        if obj_type in calculator.validators and calculator.validators[obj_type](calculator, value, unit, ref):
            return True
        return False
"""), ('objects/operators.py', "        self.unit_restrictions = []\n", "        self.unit_restrictions = []\n        self.checked = {}\n")],
 demo=r'''
c = calc()
expect(one(c, "'5' * (2 m)"), '10 metres')
c = calc()
r = c.calculate("a = '5'\nb = a to m", {}) if False else None
from modularcalculator.objects.exceptions import CalculatingException
def bad(t):
    try:
        c.calculate(t); return False
    except CalculatingException:
        return True
expect(bad("format('5')"), bad("format('5')"))
one(c, "vv = '5' ")
''', needs='x', breaks='x'),
]
BUGS = [b for b in BUGS if b['id'] not in ('c23-sum-memo', 'c26-type-memo')]
