BUGS = [
dict(id='c01-xor-level', prop='C16', edits=[('features/layout.py', "    { 'and', 'or', 'xor' },\n", "    { 'xor' },\n    { 'and', 'or' },\n")], needs='and/or followed by xor in one expression without brackets', breaks='xor binds tighter than and/or instead of left to right',
 demo=r'''
c = calc()
expect(one(c, '(true or true xor true) then 1 else 2'), '2')
'''),
dict(id='c01-mod-level', prop='C01', edits=[('features/layout.py', "    { '*', '/', '%', '*$', '\\\\' },\n", "    { '*', '/', '%', '*$' },\n    { '\\\\' },\n")], needs='\\ followed by * / or % in one expression', breaks='integer division no longer groups left to right with * and /',
 demo=r'''
c = calc()
expect(one(c, r'7 \ 2 * 2'), '6')
'''),
dict(id='c01-implicit-cast', prop='C01', edits=[('engine.py', 'if self.implicit_multiply_op is not None and self.implicit_multiply_op in prec and not item_is_op and not item_is_unit and i > 0 and not prev_is_op:', 'if self.implicit_multiply_op is not None and self.implicit_multiply_op in prec and not item_is_op and not item_is_unit and i > 0 and not prev_is_op and not (i < len(items) - 1 and self.is_op(items[i + 1]) and items[i + 1].op in (self.multiply_op, self.divide_op)):')], needs='an implicit multiplication on the right of a division and followed by another * or /', breaks='the implicit multiplication is not done before the explicit division on its left',
 demo=r'''
c = calc()
expect(one(c, '12 / 3 (2) / 2'), '1')
'''),
dict(id='c02-comment-strip', prop='C02', edits=[('features/nonfunctional/comments.py', 'return [CommentItem(next[0:i])], i, None', 'return [CommentItem(next[0:i].rstrip())], i, None')], needs='a comment which ends with spaces or tabs', breaks='the trailing whitespace of a comment is lost from the items',
 demo=r'''
c = calc()
text = '1 + 2 # three  \n4'
r = c.calculate(text)
expect(''.join(i.text for x in r.results for i in x.items), text)
'''),
dict(id='c02-highlight-position', prop='C02', edits=[('services/syntaxhighlighter.py', 'ii = text.find(itemtext, i)', 'ii = text.find(itemtext, i) if len(itemtext) > 0 else i'), ('services/syntaxhighlighter.py', '            i += len(itemtext)\n', '            i = text.find(itemtext) + len(itemtext)\n')], needs='an item whose text occurs earlier in the same statement', breaks='the highlighter goes back to the first occurrence of the text, so pieces are repeated',
 demo=r'''
from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter
c = calc()
text = 'x = 1 + x + 1'
r = c.calculate('x = 4\n' + text)
h = SyntaxHighlighter().highlight_statements([x.items for x in r.results])
expect([''.join(t for _, t in s) for s in h], ['x = 4\n', text])
'''),
dict(id='c02-inline-statement-items', prop='C02', edits=[('features/structure/inlinefunctions.py', 'inner_items = [ii for i in inner_items for ii in i]', 'inner_items = [ii for i in inner_items if len(functional_items(i)) > 0 for ii in i]')], needs='an inline function with a blank or comment-only line', breaks='the items of blank and comment lines of an inline function are lost',
 demo=r'''
c = calc()
text = 'f = { # double it\n PARAM1 * 2 }'
r = c.calculate(text)
def leaves(items):
    return ''.join(leaves(i.items) if hasattr(i, 'items') and i.items is not None else i.text for i in items)
expect(leaves([i for x in r.results for i in x.items]), text)
'''),
dict(id='c03-inline-error-statements', prop='C03', edits=[('features/structure/inlinefunctions.py', '[i for s in err.statements for i in s]', '[i for s in err.statements[0:1] + err.statements[-1:] for i in s]')], needs='a parse error inside an inline function after at least three statements', breaks='the error lists statements which are not a prefix of the input',
 demo=r'''
c = calc()
def position(text):
    try:
        c.calculate(text)
    except CalculatingException as err:
        return err.truncate(text)
for text in ('f = { x = 1\n y = 2\n y $ 3 }', 'f = { x = 1\n y = 2\n z = 3\n $ }'):
    try:
        c.calculate(text)
        expect('no error', 'error')
    except CalculatingException as err:
        done = ''.join(i.text for s in err.statements for i in s)
        rest = err.next
        expect(text.startswith(done), True)
        if rest is not None:
            expect(text.endswith(rest), True)
        def leaves(items):
            return ''.join(leaves(i.items) if hasattr(i, 'items') and i.items is not None else i.text for i in items)
        inner = leaves([i for s in err.statements for i in s])
        expect(text.startswith(inner), True)
'''),
dict(id='c03-result-before-error', prop='C03', edits=[('engine.py', "                    result = CalculatorResult(items_text(items), items)\n                    result.set_timing('parse', return_flags['times'][i])\n", "                    result = CalculatorResult(items_text(items), items)\n                    result.set_timing('parse', return_flags['times'][i])\n                    response.add_result(result)\n"), ('engine.py', "                    response.add_result(result)\n\n                    if 'include_state' ", "                    if 'include_state' ")], needs='a statement which fails when executed', breaks='the response attached to the error includes the failed statement',
 demo=r'''
c = calc()
try:
    c.calculate('1\n2\n1/0\n3')
    expect('no error', 'error')
except CalculatingException as err:
    expect(len(err.response.results), 2)
'''),
dict(id='c04-vars-on-error', prop='C04', edits=[('engine.py', '            except CalculatingException as err:\n                err.set_response(response)\n                raise err\n\n        return response', '            except CalculatingException as err:\n                err.set_response(response)\n                if len(response.results) == 0:\n                    self.vars = backup_vars\n                raise err\n\n        return response'), ('engine.py', '        response = CalculatorResponse()\n        if len(expr) > 0:', '        response = CalculatorResponse()\n        backup_vars = self.vars.copy()\n        if len(expr) > 0:')], needs='the first statement fails after a nested assignment inside it has completed', breaks='the completed nested assignment is undone, depending on whether earlier statements were in the same call',
 demo=r'''
c = calc()
vals(c, 'y = (x = 3) / 0')
expect(one(c, 'x'), '3')
'''),
dict(id='c08-external-cache', prop='C08', edits=[('features/structure/externalfunctions.py', '        path = os.path.expanduser(ref)\n', "        path = os.path.expanduser(ref)\n        cache = calculator.__dict__.setdefault('external_function_cache', {})\n        if path in cache and cache[path][0] == os.path.getsize(path):\n            return cache[path][1]\n"), ('features/structure/externalfunctions.py', '                i += 1\n\n        return func', '                i += 1\n\n        cache[path] = (len(func_content), func)\n        return func')], needs='an external function file changed to a content of the same size between two calls', breaks='the old content is executed',
 demo=r'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    c = calc()
    p = os.path.join(d, 'f')
    open(p, 'w').write('PARAM1 + 1')
    vals(c, "f = '{}'".format(p))
    expect(one(c, '@f(1)'), '2')
    open(p, 'w').write('PARAM1 * 7')
    expect(one(c, '@f(1)'), '7')
finally:
    shutil.rmtree(d)
'''),
dict(id='c08-unit-power-reset', prop='C08', edits=[('features/structure/externalfunctions.py', '                            units.append(int(unit_power))', '                            units.append(abs(int(unit_power)))')], needs='a declared input dimension with a negative power', breaks='quantities of the wrong dimension are accepted and correct ones rejected',
 demo=r'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    c = calc()
    p = os.path.join(d, 'f')
    open(p, 'w').write('#INPUT number:length,time^-1\nPARAM1')
    vals(c, "f = '{}'".format(p))
    expect(one(c, '@f(3 metres/second)') != 'error', True)
    expect(one(c, '@f(3 metres * 1 second)'), 'error')
finally:
    shutil.rmtree(d)
'''),
dict(id='c09-mixed-dimension', prop='C09', edits=[('services/unitnormaliser.py', 'if self.unit_normalised_dimensionlist(fromunit) != self.unit_normalised_dimensionlist(tounit):', 'if set(d.key() for d in self.unit_normalised_dimensionlist(fromunit)) != set(d.key() for d in self.unit_normalised_dimensionlist(tounit)):')], needs='a conversion between products of the same dimensions in different powers', breaks='the conversion is accepted',
 demo=r'''
c = calc()
expect(one(c, '3 metres^2 seconds to metre second'), 'error')
'''),
dict(id='c10-zero-power', prop='C10', edits=[('services/unitnormaliser.py', '                    if power.to_decimal() != 0:\n                        # Multiple', '                    if power.to_decimal() > 0:\n                        # Multiple')], needs='two different units of one dimension in a denominator', breaks='units are dropped',
 demo=r'''
c = calc()
a = vals(c, '1 / (2 metres * 3 feet)')
expect(one(c, 'x = 1 kg / (2 metres * 3 feet)\n(x * 6 metres^2 / 1 kg) to metres/foot') , one(c, '(1 metre/foot)'))
'''),
dict(id='c11-format-carry', prop='C11', edits=[('features/units/unitfunctions.py', 'num_of_unit = math.floor(num)', 'num_of_unit = Number(int(round(num)))')], needs='a quantity with a fraction of at least a half in the bigger unit', breaks='parts do not add up',
 demo=r'''
c = calc()
expect(one(c, 'format(1.75 feet, us)'), '1 foot, 9 inches')
'''),
dict(id='c12-base36', prop='C12', edits=[('features/numerical/bases.py', '            if c_val == -1 or c_val > base - 1:', '            if c_val == -1 or (c_val > base - 1 and not (negative and c_val == base)):')], needs='a negative literal of an arbitrary base with a digit equal to the base', breaks='a malformed literal is read as a number',
 demo=r'''
c = calc()
expect(one(c, '-0x1f'), '-0x1F')
expect(vals(c, "-3z13"), 'error')
'''),
dict(id='c12-exp-sign', prop='C12', edits=[('features/numerical/expnumbers.py', "        if parts[0] != '0':\n            parts[0] = parts[0].rstrip('0')\n", "        if parts[0] != '0':\n            parts[0] = parts[0].rstrip('0')\n        parts[1] = parts[1].replace('-0', '-').lstrip('0')\n")], needs='a number between 1 and 10 shown in scientific notation', breaks='the exponent is empty and the text does not read back',
 demo=r'''
c = calc()
expect(one(c, 'scientific(5)'), '5E0')
'''),
dict(id='c13-context-rounding', prop='C13', edits=[('objects/number.py', '            dec_num = round(dec_num, decimal_places)\n', '            dec_num = round(dec_num, decimal_places + 1)\n            dec_num = round(dec_num, decimal_places)\n')], needs='a digit 4 followed by digits that round up after the last place', breaks='the value is rounded twice',
 demo=r'''
c = calc()
c.number_prec_set(2)
expect(one(c, '1.2446'), '1.24')
'''),
dict(id='c14-lengths', prop='C14', edits=[('objects/operators.py', '            for i in array_inputs:\n                lengths.add(len(inputs[i].value))\n            if len(lengths) > 1:\n                raise CalculatorException("All array inputs must all be same length")\n            length = lengths.pop()\n', '            for i in array_inputs:\n                if len(inputs[i].value) > 1:\n                    lengths.add(len(inputs[i].value))\n            if len(lengths) > 1:\n                raise CalculatorException("All array inputs must all be same length")\n            length = lengths.pop() if len(lengths) > 0 else 1\n'), ('objects/operators.py', '                    if ii in array_inputs:\n                        # This input is an array, get the element for this iteration\n                        input_row.append(inp.value[i])', '                    if ii in array_inputs:\n                        # This input is an array, get the element for this iteration\n                        input_row.append(inp.value[min(i, len(inp.value) - 1)])')], needs='an array of one element combined with a longer one', breaks='arrays of different lengths are accepted',
 demo=r'''
c = calc()
expect(one(c, '[1] + [1, 2, 3]'), 'error')
'''),
dict(id='c14-error-stops', prop='C14', edits=[('objects/operators.py', '                except CalculatorException as err:\n                    res = OperandResult(err, None, None)\n                results.append(res)', '                except CalculatorException as err:\n                    if len(results) > 0 and isinstance(results[-1].value, Exception):\n                        raise err\n                    res = OperandResult(err, None, None)\n                results.append(res)')], needs='two neighbouring elements failing', breaks='the whole operation fails',
 demo=r'''
c = calc()
expect(one(c, 'count([1, 2, 3] / [0, 0, 1])'), '3')
'''),
dict(id='c15-range-count', prop='C15', edits=[('features/arrays/arrays.py', '        n = element_result.value\n        while (step_result.value.to_decimal() > 0 and n <= end_element_result.value) or (step_result.value.to_decimal() < 0 and n >= end_element_result.value):\n            array.append(OperandResult(n, element_result.unit, None))\n            n += step_result.value\n        return array', '        if step_result.value.to_decimal() == 0:\n            return array\n        count = int(float(end_element_result.value - element_result.value) / float(step_result.value)) + 1\n        n = element_result.value\n        for _ in range(0, count):\n            array.append(OperandResult(n, element_result.unit, None))\n            n += step_result.value\n        return array')], needs='a range with a step that is not exact in binary', breaks='the end of the range is missed',
 demo=r'''
c = calc()
expect(one(c, 'count([0 .. 0.3 step 0.1])'), '4')
expect(one(c, 'count([0 .. 0.7 step 0.1])'), '8')
expect(one(c, 'count([1 .. 1.9 step 0.1])'), '10')
'''),
dict(id='c15-sort-unique', prop='C15', edits=[('features/arrays/arrayfunctions.py', 'sorted_array = sorted(vals[0], key=lambda x: x.value)', 'sorted_array = [o for _, o in sorted({(v.value, i): v for i, v in enumerate(vals[0])}.items(), key=lambda x: float(x[0][0]))]')], needs='elements closer together than floating precision', breaks='the result is not ascending',
 demo=r'''
c = calc()
expect(one(c, 'sort([1.00000000000000000002, 1.00000000000000000001])'), ['1.00000000000000000001', '1.00000000000000000002'])
'''),
dict(id='c23-median', prop='C23', edits=[('features/numerical/statisticalfunctions.py', 'return OperationResult((statistics.median_low(values) + statistics.median_high(values)) / Number(2))', 'return OperationResult(sum(sorted(values)[(len(values) - 1) // 2:len(values) // 2 + 1], Number(0)) / Number(1 + (len(values) + 1) % 2)) if len(set(values)) == len(values) else OperationResult((statistics.median_low(set(values)) + statistics.median_high(values)) / Number(2))')], needs='repeated values', breaks='wrong median',
 demo=r'''
c = calc()
expect(one(c, 'median(1, 1, 1, 2)'), '1')
expect(one(c, 'median(1, 1, 2, 3, 9)'), '2')
expect(one(c, 'median(1, 2, 3, 9, 9)'), '3')
expect(one(c, 'median(1, 1, 1, 2, 3)'), '1')
expect(one(c, 'median(1, 1, 1, 1, 2, 3)'), '1')
'''),
dict(id='c23-fact-memo', prop='C23', edits=[('features/numerical/numericalfunctions.py', "    def func_lcm(self, vals, units, refs, flags):\n        if (vals[0] % Number(1)).to_decimal() != 0 or (vals[1] % Number(1)).to_decimal() != 0:\n            raise CalculatorException('Operator requires integers')\n        res = OperationResult(Number(math.lcm(int(vals[0]), int(vals[1]))))", "    def func_lcm(self, vals, units, refs, flags):\n        if (vals[0] % Number(1)).to_decimal() != 0 or (vals[1] % Number(1)).to_decimal() != 0:\n            raise CalculatorException('Operator requires integers')\n        a, b = int(vals[0]), int(vals[1])\n        if a == 0 or b == 0:\n            return OperationResult(Number(0)).set_unit(units[0])\n        res = OperationResult(Number(a // math.gcd(a, b) * b))")], needs='exactly one negative argument', breaks='lcm is negative',
 demo=r'''
c = calc()
expect(one(c, 'lcm(-4, 6)'), '12')
'''),
dict(id='c26-maxparams-null', prop='C26', edits=[('objects/operators.py', "toparam = min(len(values), restriction['toparam'] + 1)\n            # Cycle through each param this restriction applies to, and make sure it matches", "toparam = min(len(values), max(restriction['toparam'], fromparam + 1))\n            # Cycle through each param this restriction applies to, and make sure it matches")], needs='a wrong second argument where the restriction spans several parameters', breaks='the last parameter of a restriction is not checked',
 demo=r'''
c = calc()
expect(one(c, "datedifference('2020-01-01', 5)"), 'error')
expect(one(c, "format(5 metres, 3)"), 'error')
'''),
dict(id='c27-symbol-lower', prop='C27', edits=[('features/units/units.py', '                if symbol in self.unit_normaliser.unitsymbols:', '                if symbol not in self.unit_normaliser.unitsymbols and len(symbol) == 1:\n                    symbol = symbol.lower()\n                if symbol in self.unit_normaliser.unitsymbols:')], needs='a one-letter upper-case name which is a unit symbol in lower case only', breaks='symbols match regardless of case',
 demo=r'''
c = calc()
expect(vals(c, 'H = 3\nH * 2')[-1], '6')
expect(vals(c, 'D = 3\nD * 2')[-1], '6')
expect(vals(c, 'L = 3\nL * 2')[-1], '6')
expect(vals(c, 'E = 3\nE * 2')[-1], '6')
'''),
]
