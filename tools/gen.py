"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 'modularcalculator/'


def P(id, title, statement, over, text, why, files, mech, observe, state=(), level='proof', note='', technique=''):
    return dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                anchors={'files': [N + f for f in files], 'mechanism': [{'name': a, 'where': N + b} for a, b in mech],
                         'state': [{'name': a, 'meaning': b, 'where': N + c} for a, b, c in state],
                         'observe_at': observe, 'hook_needed': None},
                _level=level, _note=note, _tech=technique)


PROPS = [
    P('C01', 'Arithmetic is exact over the rationals and numbers stay canonical',
      'For unit-less numbers whose numerators and denominators fit the configured number size, +, -, *, /, ^ with an integer exponent, % '
      '(remainder with the sign of the dividend), \\ (quotient truncated towards zero) and abs give exactly the rational number mathematics '
      'gives, and dividing by zero is an error, never a value. Every number is an integer numerator over a positive integer denominator in '
      'lowest terms, however it was produced. No operation changes the value or representation of its operands.',
      ['inputs'], 'every pair of rationals whose numerator and denominator are at most B with 10^4*B^4 <= 10^precision (B = 10^24 by default)',
      'The tests compare a few dozen printed results; exactness, lowest terms and operand preservation for all operands are a universal '
      'statement over rationals that sampling cannot settle.',
      ['objects/number.py', 'features/numerical/basicarithmetic.py', 'features/numerical/advancedarithmetic.py'],
      [('Number stores a reduced integer ratio', 'objects/number.py'), ('operator implementations', 'features/numerical/basicarithmetic.py')],
      ['value of calculate() results', 'Number.num and Number.den'],
      [('num/den', 'integer numerator and positive coprime denominator', 'objects/number.py')]),
    P('C02', 'Comparisons, min, max and sorting follow the exact order of the numbers',
      'For any two numbers exactly one of <, == and > holds, it is the one that holds between the rationals they stand for, and <=, >= and '
      '!= agree with it, whatever base or form the numbers were written in. min and max of a non-empty list return an element of the list '
      'that is no greater (no less) than every element. This holds for all numbers whose numerators and denominators fit the number size.',
      ['inputs'], 'every pair of rationals within the size bound; every list length',
      'Comparison goes through a division rounded to finite precision; whether two different rationals can ever compare equal is a statement '
      'about all operands, and the tests sample a handful.',
      ['objects/number.py', 'features/boolean/booleans.py', 'features/numerical/statisticalfunctions.py'],
      [('comparison of correctly rounded quotients', 'objects/number.py'), ('min/max by value', 'features/numerical/statisticalfunctions.py')],
      ['results of comparison operators, min(), max()']),
    P('C03', 'floor, ceil and round give the right neighbouring multiple',
      'floor, ceil and round of a number to n >= 0 places return a multiple of base^-n, where base is that of the number\'s own '
      'representation: the greatest one not above it, the least one not below it, and a nearest one with ties going away from zero. '
      'The result is exact, keeps the unit and the representation of the operand, and an operand that is already a multiple is returned unchanged in value.',
      ['inputs'], 'every rational within the size bound, every number of places n >= 0 with base^n within the bound, every base',
      'The tests check particular decimals; ties, negative operands, non-decimal bases and values one unit below a multiple are universal cases.',
      ['features/numerical/numericalfunctions.py', 'objects/number.py'],
      [('scale by base^places, round, scale back', 'features/numerical/numericalfunctions.py')],
      ['results of floor(), ceil(), round()']),
    P('C04', 'A printed number is its value correctly rounded, and printing never fails',
      'The decimal text of any number is the number rounded half-up to the configured number of decimal places, written without exponent, '
      'without trailing fractional zeros and never as a negative zero, so reading the text back gives the number itself whenever it has '
      'that few decimals. Converting a result to text never raises, whatever the size of the number.',
      ['inputs', 'configurations'], 'every rational number that a calculation can produce, every size/precision setting',
      'Tests print numbers of ordinary size only; large magnitudes take the rounding code through a path that depends on context precision.',
      ['objects/number.py'], [('Number.to_string', 'objects/number.py')], ['text of results, text of numbers inside error messages and strings']),
    P('C05', 'Parsing accounts for every character of the input exactly once',
      'Parsing any text yields items whose texts, concatenated in order, are exactly that text, at every nesting level, and no item is empty. '
      'If the text cannot be parsed or a statement cannot be executed, the error has a position in the text, and the items it carries are exactly '
      'the text before that position. Parsing always ends, since every parser that finds something consumes at least one character.',
      ['inputs'], 'every input text, every combination of installed parsers',
      'Tests parse a few hundred valid expressions and look at results, never at the item texts; the claim is over all texts, including malformed ones.',
      ['engine.py', 'objects/items.py', 'features/structure/innerexpressions.py', 'features/structure/functions.py', 'features/strings/strings.py',
       'features/numerical/decimalnumbers.py', 'features/nonfunctional/comments.py', 'features/arrays/arrays.py'],
      [('parser loop advances by the reported length', 'engine.py'), ('parsers return items and length', 'engine.py')],
      ['items of a calculate() response', 'ParsingException.pos and items']),
    P('C06', 'Variables hold exactly what was last assigned, and nothing else changes them',
      'After a sequence of statements a variable holds the value and unit of the last successful assignment to it; a compound assignment '
      '(+=, ||= and the like, with a number or array on its right) equals the plain operation followed by assignment, ||= leaves an existing variable alone, and reset and delete '
      'remove exactly what they name. Statements that fail, and calculations that only parse, leave the variables as they were apart from '
      'assignments already completed. No other operation adds, changes or removes a variable.',
      ['histories', 'inputs'], 'every sequence of statements and every prior variable state',
      'Tests run short scripts; that no operation or failing statement disturbs any other variable is a frame condition over all states and histories.',
      ['features/state/assignment.py', 'features/state/assignmentoperators.py', 'features/state/assignmentfunctions.py', 'features/structure/terminator.py', 'engine.py'],
      [('variable table updated only by assignment code', 'features/state/assignment.py'), ('compound assignment', 'features/state/assignmentoperators.py')],
      ['values of variables in later statements', 'the calculator\'s variable table'],
      [('vars', 'name -> (value, unit)', 'features/state/assignment.py')]),
    P('C07', 'A user-defined function sees its parameters and leaks nothing',
      'While an inline or external function runs, PARAM1..PARAMn are exactly the arguments of that call, also for nested and recursive calls; arrays are passed element by element and the result is that of the last statement, a failing '
      'statement ending the call with an error. '
      'When it ends, by returning or by any error at all, the caller\'s variables are exactly what they were before the call.',
      ['inputs', 'histories', 'fault_sequences'], 'every function body, argument list, nesting, and every way the body can end',
      'Tests run functions that succeed; isolation on every exit path, including unexpected errors, is not sampled.',
      ['features/structure/inlinefunctions.py', 'features/structure/externalfunctions.py', 'features/structure/functionpointers.py'],
      [('variables saved before and restored after the body', 'features/structure/inlinefunctions.py')],
      ['variable table after a function call'],
      [('vars', 'name -> (value, unit)', 'features/state/assignment.py')]),
    P('C08', 'Unit conversion is exact, reversible and dimension-checked',
      'Converting a quantity between units of the same dimensions multiplies by the exact ratio of their definitions (for a temperature on its own, '
      'applies the exact affine relation; inside a compound unit a temperature unit counts as a difference), so converting there and back returns exactly the original and converting through an intermediate unit gives the '
      'same as converting directly. Converting between different dimensions is an error and never a number.',
      ['inputs', 'configurations'], 'every number, every pair and triple of installed units, compound units with any integer exponents (results within the number size)',
      'Tests convert chosen pairs; inverse and transitivity laws quantify over all values, units and compound units.',
      ['objects/units.py', 'services/unitnormaliser.py', 'features/units/units.py', 'features/unitdefinitions/temperature.py'],
      [('scale relative to the base unit', 'objects/units.py'), ('convert', 'objects/units.py')], ['value and unit of conversion results']),
    P('C09', 'Normalising and simplifying units never changes the quantity',
      'Whatever units the operands of an arithmetic operation have, the result\'s number times its unit is the physical quantity that the operation on the '
      'operand quantities gives; adding, subtracting or comparing quantities of different dimensions is an error. Simplifying, compacting or expressing a result in a unit '
      'system changes only how the quantity is written (exactly, except that rewriting through a fractional power of a unit rounds at the working precision).',
      ['inputs', 'configurations'], 'every number, every unit combination and exponent, every operator that takes units',
      'Tests use a few unit products; simplification rewrites units by search, and the invariant must hold after every rewriting step for all unit lists.',
      ['services/unitnormaliser.py', 'objects/units.py', 'features/units/unitfunctions.py'],
      [('addandconvert / removeandconvert adjust the number by the unit scale', 'services/unitnormaliser.py')], ['value and unit of results']),
    P('C10', 'Operations broadcast element by element over arrays',
      'Applying an operation that takes single values to arrays of length n gives an array of length n whose k-th element is the operation '
      'applied to the k-th elements, scalars being repeated; arrays of different lengths are an error. An element whose operation fails becomes an error in its own place '
      'and does not affect the others, and the argument arrays are unchanged. A function of one array that is given several arguments treats them as that array, '
      'once per position when some of them are arrays.',
      ['inputs'], 'every array length, nesting, position of arrays among the arguments, every failing subset of elements',
      'Tests use arrays of two or three elements; the claim is per element for every length, with failures at any position.',
      ['objects/operators.py', 'features/arrays/arrays.py'], [('Operation.call splits array inputs', 'objects/operators.py')],
      ['array results']),
    P('C11', 'Ranges contain exactly the stepped values between their ends',
      '[a..b step s] is a, a+s, a+2s, ... up to the last value that does not pass b, computed exactly, in either direction; without a step it '
      'moves by one towards b. The elements are in the unit of a, with b and s converted to it (s as a difference). A step that leads away from b, units of different dimensions, and a '
      'start, end or step without a number are errors. Building a range always ends, and an array literal holds its elements and ranges in the order written.',
      ['inputs'], 'all rational start, end and non-zero step',
      'Tests use small integer ranges; exact endpoints with fractional steps and the element count are universal.',
      ['features/arrays/arrays.py'], [('ArrayElement.value', 'features/arrays/arrays.py')], ['range results']),
    P('C12', 'Operators apply in the documented precedence and associativity',
      'An expression without brackets means the same as the fully bracketed one obtained from the precedence table: tighter operators first, '
      'operators of equal precedence left to right (right to left where declared so, as for prefix operators), each operator taking exactly its declared operands. '
      'Every operator in the expression is applied exactly once.',
      ['inputs', 'configurations'], 'every sequence of operands and operators of any length',
      'Tests contain short mixtures; order of reduction is a statement about all expression lengths and operator combinations.',
      ['engine.py', 'features/layout.py'], [('precedence sweep over the item list', 'engine.py'), ('operator precedence table', 'features/layout.py')],
      ['results of bracketed versus unbracketed expressions']),
    P('C13', 'Number bases and notations round-trip',
      'Writing a number in binary, octal, hexadecimal, any base from 2 to 36, exponent or percentage form and reading the text back gives the same number whenever '
      'the text is not truncated, for negative and fractional numbers too; reading a digit string gives the sum of its digits weighted by powers of the base. '
      'Converting the representation never changes the value.',
      ['inputs'], 'every number within the number size, every base 2..36, every width',
      'Tests check literals; positional value and round-trip are statements about all digit strings and bases.',
      ['features/numerical/bases.py', 'features/numerical/binarynumbers.py', 'features/numerical/hexadecimalnumbers.py', 'features/numerical/octalnumbers.py',
       'features/numerical/arbitrarybasenumbers.py', 'features/numerical/expnumbers.py', 'features/numerical/percentagenumbers.py'],
      [('BasesFeature number conversion', 'features/numerical/bases.py')], ['text and value of numbers in a base']),
    P('C14', 'Feature installation is complete, ordered and repeatable',
      'Installing any set of features also installs everything they depend on, each exactly once, each after all of its dependencies and after the installed features it declares it must follow, '
      'independently of the order of the request; an unknown feature id is an error. A calculator built from any subset of features reports a proper error, never an '
      'internal failure, for input it does not support.',
      ['configurations'], 'every subset of features in every order',
      'Tests use the presets only; closure and order quantify over all subsets and orders.',
      ['modularcalculator.py', 'features/feature.py'], [('install_features', 'modularcalculator.py')], ['installed_features', 'parse order']),
    P('C15', 'An operation only runs on arguments that satisfy its declared restrictions',
      'The code behind an operator or function is entered only with the number of arguments and argument types it declares, numbers already '
      'converted to exact numbers and, where it asks for it, in a common unit, and with units of the dimensions it declares; anything else is an error naming '
      'the operation. It gets flags of its own and, for an argument declared to be an array of numbers, an array and elements of its own: it cannot alter the caller\'s.',
      ['inputs'], 'every operation, argument count, value type and unit',
      'Tests exercise wrong arguments for a few functions; the guard is universal over operations and argument tuples.',
      ['objects/operators.py'], [('Operation.validate before ref', 'objects/operators.py')], ['errors for wrong arguments']),
    P('C16', 'Every failure is reported as a calculator error and the calculator stays usable',
      'For any input text, calculate either returns a response or raises the calculator\'s own error carrying a message, the statements '
      'completed before and the offending text; no other exception escapes. After an error the same calculator evaluates further input as if the failed text had not been given, '
      'apart from the assignments already completed.',
      ['inputs', 'fault_sequences', 'histories'], 'every input text and every failure inside an operation',
      'Tests sample error messages; containment over all texts and all library failures is universal.',
      ['engine.py', 'objects/operators.py', 'objects/exceptions.py', 'features/structure/terminator.py'], [('exception wrapping', 'engine.py'), ('the remembered terminator', 'features/structure/terminator.py')], ['exceptions raised by calculate()', 'results of later texts']),
    P('C17', 'A numeric result takes the form of its first numeric operand and aliases nothing',
      'The result of an operation on numbers is shown in the base or notation of its first numeric operand that has one (plain decimal numbers have none), including array arguments. Evaluating an expression never '
      'changes how a value stored in a variable or array is shown or what it is worth.',
      ['inputs', 'histories'], 'every operation, mix of representations, and stored value',
      'Tests check a few hexadecimal sums; that no evaluation path rewrites a stored number in place is a frame condition over all operations.',
      ['objects/operators.py', 'objects/number.py'], [('number_cast copied to the result', 'objects/operators.py')], ['text of results and of variables afterwards']),
    P('C18', 'Bitwise and integer functions agree with integer arithmetic',
      'and, or, xor, not, shifts, lcm, gcd and factorial of integers equal the mathematical integer functions exactly, at any size (negative integers as two\'s complement); not flips exactly the digits of the '
      'operand\'s width: the digits its binary text is written with, leading zeros included, carried through the bitwise operations (the wider operand decides), and otherwise its bit length. Non-integers, and negative operands where not meaningful, are errors.',
      ['inputs'], 'all integers within the number size, all widths',
      'Tests use small operands; powers of two and widths near floating-point limits are the cases sampling misses.',
      ['features/numerical/bitwiseoperators.py', 'features/numerical/numericalfunctions.py'], [('bitwise operators', 'features/numerical/bitwiseoperators.py')],
      ['results of the operators']),
    P('C19', 'Logic and conditionals evaluate as truth tables, with errors as values only where allowed',
      'and, or, xor and not follow their truth tables on booleans, and arrays apply them row by row. When the first operand alone determines the result of and/or, '
      'a second operand that failed decides nothing; when it does not, the failure is reported. An operand that is neither a boolean nor (as second operand of and/or) a failure is an error. '
      '`a then b else c` yields b when a is true and c otherwise, with its unit and reference (so that it can still be assigned to), and a failure in the branch not chosen is ignored.',
      ['inputs'], 'all operand types including errors', 'Tests cover the plain tables; error operands in each position are not enumerated.',
      ['features/boolean/booleans.py', 'objects/operators.py'], [('operator implementations', 'features/boolean/booleans.py')], ['results of the operators']),
    P('C20', 'String and array functions satisfy their sequence laws',
      'The string functions and operators work on the text their operands are written as: length, upper and lower case, stripping, replacing, appending and repeating give what these say; find gives the position '
      '(from 0) of the first occurrence or -1; substr gives the characters from the start to the end position, both included, negative positions counting from the end; split gives the parts between the '
      'delimiters, which join puts together again; the comparisons order texts by character (those with ~ in lower case); the pattern functions give the occurrences, numbered from 1. '
      'concat, reverse, sort, filter, element (from 1) and count give exactly the elements the sequence law says, each with its own value and unit, sort in ascending order. '
      'An element or occurrence before the first or beyond the last is an error. No argument is changed.',
      ['inputs'], 'all strings and arrays of any length', 'Tests use one or two literals per function.',
      ['features/strings/stringfunctions.py', 'features/strings/stringarrayfunctions.py', 'features/arrays/arrayfunctions.py', 'features/strings/strings.py'],
      [('function implementations', 'features/strings/stringfunctions.py')], ['results of the functions']),
    P('C21', 'Dates: time arithmetic, differences and writing are exact',
      'Adding a time period to a date, by dateadd or +%, gives the date exactly that much later in the Gregorian calendar (to the nearest microsecond), however long the period is and in whatever time unit it is '
      'written, keeping the timezone; subtracting gives the date that much earlier. datedifference gives the exact time from one date to the other as a positive quantity whichever comes first, in seconds or in the unit '
      'asked for; a date with a timezone and one without cannot be compared. A date result is written as text that reads back as the same date: no time at midnight, no fraction for whole seconds, the timezone when there is one. '
      'A text that is not a date, an amount that is not a time, and a result outside the years 1 to 9999 are errors.',
      ['inputs'], 'all dates of the years 1 to 9999 in every form (timezone offsets of whole minutes), all rational amounts in all time units',
      'Tests check a few recent dates and short periods; leap years, long periods with microseconds, offsets and the ends of the calendar are not sampled.',
      ['features/dates/dates.py', 'features/dates/datefunctions.py', 'features/dates/dateoperators.py'],
      [('reading and writing dates', 'features/dates/dates.py'), ('time arithmetic', 'features/dates/datefunctions.py')], ['results of the functions']),
    P('C22', 'Statistics, logarithms, exponentials and fractional powers are right to the working precision',
      'sum is exact; mean, median, mode (the first of the most frequent elements), stdev (of the sample), log (natural, or to a base), exp and powers with a fractional exponent give the mathematical value, '
      'correct to at least 40 significant digits at the default settings; the statistics are given in the unit of the first element. The logarithm of a number that is not positive is an error.',
      ['inputs'], 'all arrays of numbers or quantities of one dimension, all rationals of ordinary size',
      'Tests compare a handful of printed values; a value that goes through a float on some path is right to 16 digits only, which those do not see.',
      ['features/numerical/statisticalfunctions.py', 'features/numerical/numericalfunctions.py', 'objects/number.py'],
      [('statistics', 'features/numerical/statisticalfunctions.py'), ('log and exp', 'features/numerical/numericalfunctions.py')], ['results of the functions']),
    P('C23', 'Syntax highlighting covers the text exactly once',
      'Highlighting the statements of a text, also those read before a syntax error, gives one list of pieces per statement; joined in order the pieces are exactly the text that was read, nothing lost, repeated or '
      'reordered. Each piece is one innermost item (of a function call, a bracket, an array, an inline function) with the category of that item. Nothing is printed.',
      ['inputs'], 'all texts and all lists of items whose texts lie one after the other',
      'Tests highlight a few dozen expressions.',
      ['services/syntaxhighlighter.py', 'objects/items.py'], [('walking the items', 'services/syntaxhighlighter.py')], ['result of highlight_statements']),
    P('C24', 'Trigonometric, hyperbolic and special functions approximate the mathematical functions',
      'sin, cos, tan, their inverses and hyperbolic forms, and gamma, beta, erf and the like give the mathematical value of the function at the number given, to double precision.',
      ['inputs'], 'all numbers of the domain', 'Tests compare a value or two per function.',
      ['features/numerical/trigonometryfunctions.py', 'features/numerical/specialfunctions.py'],
      [('calls of math and scipy', 'features/numerical/trigonometryfunctions.py')], ['results of the functions']),
]

REASONS = {
    'C24': 'Each function is one call of an external float routine (math, scipy.special) on a float of the argument. A contract could only assume that routine right, which is the whole property: '
           'nothing of it lies in the code of this repository, and no verifier here reasons about the accuracy of transcendental float routines.',
}

NOT_APPLICABLE = [
]


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []
    for p in have:
        checks.append({
            'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['_tech'] or 'contract-based deductive verification of the real functions (pyvc VC generator over /repo source, z3/cvc5), '
                                       'failing obligations replayed on the real code',
            'level': p['_level'],
            'level_note': p['_note'] or 'Obligations discharged for all inputs within the stated size bound; trusts pyvc, its models of built-ins and decimal rounding, z3 and cvc5.'})
    na = list(NOT_APPLICABLE)
    for p in PROPS:
        if p not in have:
            na.append({'property': p['id'], 'reason': REASONS.get(p['id'], 'not built yet')})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read and execute /repo as it is. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
