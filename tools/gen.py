#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the
rule registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from omcheck.registry import CHECKS            # noqa

STD = 'omtools/std'
COMPS = 'omtools/comps'
VAR = 'omtools/core/variable.py'
GRP = 'omtools/core/group.py'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None,
         technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe or [], technique=technique, note=note))


prop('C01', 'Elementary functions compute the function they are named after',
     'A model output built from arccos, arcsin, arctan, cos, cosec, cosech, '
     'cosh, cotan, cotanh, exp, log, log10, sec, sech, sin, sinh, tan or '
     'tanh of an expression holds, elementwise and for every shape and '
     'every real input in the domain, the value of that mathematical '
     'function of the expression.',
     ['inputs'], 'all real inputs in the domain, all operand shapes',
     'the tests evaluate each function at a handful of points of one shape',
     [STD, COMPS], [('the component each function builds', STD + '/sin.py'),
                    ('compute of the component', COMPS + '/sincomp.py')],
     ['Problem[...] after run_model'])
prop('C02', 'Derivatives of the elementary functions are exact',
     'The total derivative of every elementary function of an expression '
     '(the functions of the trigonometric, hyperbolic, exponential and '
     'logarithmic family) that a model reports equals the analytic '
     'derivative of what the model computes, for every real input in the '
     'domain and every shape: each element depends only on the matching '
     'element.',
     ['inputs'], 'all real inputs in the domain, all operand shapes',
     'the tests compare with finite differences at one point',
     [STD, COMPS], [('declare_partials and compute_partials of the '
                     'component', COMPS + '/sincomp.py')],
     ['compute_totals / check_partials'])
prop('C03', 'Operators on expressions denote elementwise arithmetic',
     'x + y, x - y, x * y, x / y, -x and x ** p on expressions, and the same '
     'operators with a number or an array of the expression\'s shape on '
     'either side (numbers on both sides, arrays of real numbers, integers '
     'of any kind or truth values on the right), compute elementwise the same value as the operator applied to the operands\' '
     'values, with operand order respected.',
     ['inputs', 'programs'], 'all values, all operand kinds and orders',
     'the tests evaluate a few operand kinds at single points where several '
     'wrong formulas agree',
     [VAR, COMPS + '/linearcombination_comp.py',
      COMPS + '/arithmetic_comps'],
     [('operator methods and the components they build', VAR)],
     ['Problem[...] after run_model'])
prop('C04', 'Derivatives of arithmetic operators are exact',
     'The derivative a model reports for an expression built with +, -, *, '
     '/, unary minus or ** (with expressions, numbers or arrays as '
     'operands) with respect to each expression operand equals the analytic '
     'derivative of the value computed, elementwise and for every input.',
     ['inputs', 'programs'], 'all values, operand kinds and orders',
     'finite differences at one point accept wrong formulas that agree there',
     [VAR, COMPS + '/linearcombination_comp.py',
      COMPS + '/arithmetic_comps'],
     [('declare_partials / compute_partials', COMPS + '/arithmetic_comps')],
     ['compute_totals / check_partials'])
prop('C05', 'sum and average reduce what they say, with exact derivatives',
     'sum (average) of one expression is the sum (mean) of its elements; '
     'given axes, over exactly those axes; of several expressions, their '
     'elementwise sum (mean), further reduced over the axes if given.  The '
     'derivatives reported equal those of the value computed for every '
     'shape, axes and number of operands.',
     ['inputs'], 'all values, shapes, axes, operand counts',
     'the tests use one shape, one axis and up to two operands',
     [STD + '/sum.py', STD + '/average.py',
      COMPS + '/single_tensor_sum_comp.py',
      COMPS + '/multiple_tensor_sum_comp.py',
      COMPS + '/single_tensor_average_comp.py',
      COMPS + '/multiple_tensor_average_comp.py'],
     [('component compute and partials', COMPS)], [])
prop('C06', 'max and min are smooth extrema with exact derivatives',
     'max (min) of an expression, along an axis, or elementwise across '
     'several expressions is the Kreisselmeier-Steinhauser maximum (minimum) '
     'with the given rho, computed without overflow for large values, and '
     'its derivatives equal those of the value computed, for every shape, '
     'axis, rho and number of operands.',
     ['inputs'], 'all values, shapes, axes, rho, operand counts',
     'one shape and one rho are tested', [STD + '/max.py', STD + '/min.py',
     COMPS + '/scalar_extremum_comp.py', COMPS + '/axiswise_max_comp.py',
     COMPS + '/axiswise_min_comp.py', COMPS + '/elementwise_max_comp.py',
     COMPS + '/elementwise_min_comp.py'],
     [('component compute and partials', COMPS)], [])
prop('C07', 'pnorm is the p-norm, with exact derivatives',
     'pnorm of an expression is the p-norm of all its elements, or along the '
     'given axis or axes, for every even positive p, and its derivatives equal those '
     'of the value computed wherever the norm is positive.',
     ['inputs'], 'all values, shapes, axes and p',
     'the tests use p = 2 and 8 and one shape',
     [STD + '/pnorm.py', COMPS + '/vectorized_pnorm_comp.py',
      COMPS + '/vectorized_axiswise_pnorm_comp.py'],
     [('component compute and partials', COMPS)], [])
prop('C08', 'Products compute the products they are named after',
     'matmat, matvec, inner, dot, outer and cross compute the matrix-matrix, '
     'matrix-vector, inner (over the given axes), dot (over the given axis), '
     'outer and cross product (along the given axis) of their operands in '
     'the given order, for every valid combination of shapes and axes.',
     ['inputs'], 'all values, shapes and axes',
     'one shape per function is tested',
     [STD, COMPS], [('component compute', COMPS + '/matmat_comp.py')], [])
prop('C09', 'Derivatives of the products are exact',
     'The derivatives reported for matmat, matvec, inner, dot, outer and '
     'cross with respect to each operand equal those of the value computed, '
     'for every input, every valid combination of shapes and every axis.',
     ['inputs'], 'all values, shapes and axes',
     'one shape per function is tested, mostly with square or equal sizes '
     'that hide index errors',
     [COMPS], [('rows, cols and values of the partials',
                COMPS + '/matmat_comp.py')], [])
prop('C10', 'Shape manipulation moves every element to the right place',
     'reshape keeps the row-major order of elements, transpose and '
     'reorder_axes permute the axes as asked, expand repeats the operand '
     'along the new axes, and rotmat builds the rotation matrix about the '
     'named axis; the derivatives reported are those of this map, for every '
     'shape and permutation.',
     ['inputs'], 'all values, shapes and permutations',
     'one shape and one permutation per function is tested',
     [STD + '/reshape.py', STD + '/transpose.py', STD + '/reorder_axes.py',
      STD + '/expand.py', STD + '/rotmat.py'],
     [('component compute and partials', COMPS)], [])
prop('C11', 'Every operand is connected by the name it has in the model',
     'Each operand of a function or operator is an input of the part of the '
     'model built for the result, under the name the operand has when the '
     'model is built (also after it was renamed by registering it as an '
     'output), each value is read from and written to the matching '
     'variable, and the result is available under its own final name.',
     ['programs', 'histories'], 'all functions, operand counts and orders '
     'of naming and use',
     'tests rarely rename operands after use, and never for every function',
     [STD, COMPS, VAR], [('late evaluation of names in the build closure',
                          STD + '/sin.py')], [])
prop('C12', 'Results and inputs have the shapes the operation implies',
     'The result of every function or operator has the shape the '
     'mathematical operation gives for the operand shapes and axes, the '
     'built model declares its output with that shape, and every operand is '
     'received with the operand\'s own shape.',
     ['inputs', 'programs'], 'all operand shapes and axes',
     'tests use one or two shapes per function',
     [STD, COMPS, VAR], [('shape of the result', STD + '/sum.py'),
                         ('add_input / add_output', COMPS)], [])
prop('C13', 'Operands keep their initial values in the model',
     'The input of the built model that receives an operand starts from that '
     'operand\'s own initial value, for every function and operator and '
     'every operand, so that running without connecting anything uses the '
     'values the user declared.',
     ['programs'], 'all functions, operand positions and counts',
     'tests mostly use connected inputs whose initial value is overwritten',
     [STD, COMPS, VAR], [('val argument of add_input', COMPS)], [])
prop('C14', 'The dependency graph contains every operand',
     'Every expression passed to a function or operator is a dependency of '
     'the result on every path, so that it is built and executed before the '
     'result; nothing that is not an operand becomes a dependency.',
     ['programs'], 'all functions, argument combinations and counts',
     'a missing dependency goes unnoticed when the operand is built for '
     'another reason',
     [STD, VAR], [('dependency registration', STD + '/sum.py')], [])
prop('C15', 'Every derivative a model needs is supplied analytically',
     'For every function and operator the derivative of the result with '
     'respect to each operand is declared and, on every path, given a value '
     'analytically (not approximated by differencing), and the output itself '
     'is assigned on every path.',
     ['inputs', 'programs'], 'all functions, argument combinations, paths',
     'a derivative that is missing on one path is zero and silent',
     [COMPS], [('declare_partials and compute_partials', COMPS)], [])
prop('C16', 'Evaluating a model has no side effects',
     'Evaluating outputs or derivatives of a built model changes neither the '
     'inputs, nor the values the user passed, nor any state a later '
     'evaluation uses; evaluating twice at the same point gives the same '
     'result whatever was evaluated in between.',
     ['histories', 'inputs'], 'all sequences of evaluations',
     'tests evaluate once', [COMPS], [('compute and compute_partials',
                                       COMPS)], [])
prop('C17', 'Unsupported operands are rejected when the call is made',
     'Calling a function with something that is not an expression in place '
     'of an operand, in any position, or an operator with an operand that is '
     'neither an expression nor a supported constant, raises TypeError at '
     'the call.',
     ['inputs', 'programs'], 'all functions, operand positions, kinds',
     'two functions are tested, each with one bad operand in first position',
     [STD, VAR], [('type checks', STD + '/sum.py')], [])
prop('C18', 'Incompatible shapes and axes are rejected, valid ones accepted',
     'Operands whose shapes cannot be combined by the operation, and axes '
     'that do not fit, raise an error when the expression is written or the '
     'model is set up, and every combination the operation is defined for '
     'is accepted.',
     ['inputs'], 'all shapes and axes',
     'tests use one valid shape combination per function',
     [STD, COMPS], [('shape checks', STD)], [])
prop('C19', 'Every function hands its component options it accepts',
     'Each public function is available from the public module, and building '
     'its result passes the component only options it declares, all options '
     'it needs, and values of a kind it accepts, so that building never '
     'fails on a valid expression.',
     ['programs'], 'all functions and argument combinations',
     'argument combinations that no test uses are never built',
     [STD, COMPS, 'omtools/api.py'],
     [('options.declare and build closures', COMPS)], [])
prop('C20', 'Options are validated and protected',
     'Reading, setting or updating an option that was not declared (or was '
     'undeclared) raises KeyError, reading a required option that has no '
     'value raises RuntimeError, and a read-only dictionary rejects changes. '
     'A value, assigned or given as default, is accepted exactly when it '
     'satisfies everything its declaration states (None rule, allowed '
     'values, types, lower and upper bound, custom check), and an option '
     'declared with both values and types is refused. An accepted value is '
     'what reading the option returns, and a rejected assignment leaves the '
     'stored value and every other option as they were.',
     ['histories', 'inputs'], 'all declarations, values and sequences',
     'the tests never use the options dictionary directly; every '
     'combination of restrictions, value and history must behave',
     ['omtools/utils/options_dictionary.py'],
     [('validation before storing', 'omtools/utils/options_dictionary.py')],
     [])
prop('C21', 'A group builds exactly what its outputs need, in order',
     'Building a group registers every expression its outputs depend on and '
     'adds each expression\'s component exactly once, after the components '
     'of everything it depends on and after the independent variables, in '
     'an order that depends only on the program; only unneeded dependency '
     'edges and nodes are dropped. A subsystem runs after every output '
     'registered before it was added, and an expression that uses an input '
     'declared after a subsystem runs after that subsystem. Where an output '
     'is used in its own definition, an input of the same name stands for '
     'it and every other dependency is kept.',
     ['programs'], 'all expression graphs',
     'tests build a few small graphs',
     [GRP, 'omtools/core/graph.py', VAR, 'omtools/core/explicit_output.py',
      'omtools/utils/replace_output_leaf_nodes.py'],
     [('graph pipeline', GRP)], ['order of the components of the model'])
prop('C22', 'Outputs are defined once, completely and by valid expressions',
     'Registering an input or an expression that is already registered '
     '(created outputs and independent variables are) as an output, defining '
     'an output again in any combination of whole and indexed form, by '
     'itself or with an expression of another shape, giving an implicit '
     'output a second residual, and assigning one expression twice or '
     'overlapping or out-of-range blocks (negative integers too) raises an error, while valid '
     'definitions and assignments of disjoint blocks are accepted. An '
     'output whose definition was refused stays undefined, and an output '
     'that is used but not defined is reported when the model is built.',
     ['histories', 'programs'], 'all sequences of definitions',
     'the tests exercise few of the illegal sequences',
     [GRP, 'omtools/core/explicit_output.py',
      'omtools/core/implicit_output.py'],
     [('definition guards', 'omtools/core/explicit_output.py')], [])
prop('C23', 'Implicit outputs solve exactly the residuals that were given',
     'An implicit model declares, once the user\'s own setup has run, every '
     'implicit output and every input of its residuals once, with the shape '
     'and initial value the user gave, and evaluates the residual expression '
     'defined for each output at the current inputs and outputs, whatever it '
     'evaluated before. The derivatives it supplies are those of that '
     'expression at the current point with respect to each of its inputs and '
     'every implicit output, and its linear solves in both directions solve '
     'the whole system these form. For residuals that act element by '
     'element, a bracketed output ends no further from the root in each '
     'element than the bracket halved once per allowed iteration, with the '
     'two ends in either order and a sign change in either direction, and '
     'an output without brackets is left as it is.',
     ['programs', 'inputs', 'histories'], 'all implicit models, points, '
     'brackets, iteration limits and orders of evaluation',
     'the tests solve a few small residuals',
     [COMPS + '/implicit_component.py', 'omtools/core/implicit_output.py'],
     [('residual and linearization of the inner model',
       COMPS + '/implicit_component.py')], [])
prop('C24', 'Automatic names are unique and valid',
     'Every new expression, of whatever kind, gets a name no other '
     'automatically named expression in the process has, for at least the '
     'first ten million expressions, also across several groups and '
     'simulations. The names consist of letters, digits and underscores '
     'only.',
     ['histories'], 'all numbers of expressions created so far, up to ten '
     'million',
     'tests create few expressions',
     ['omtools/utils/gen_hex_name.py', VAR],
     [('counter and positional encoding', 'omtools/utils/gen_hex_name.py')],
     [])
prop('C25', 'Errors never terminate the calling process',
     'No operation of the library ends the Python process or raises an '
     'exit request; every error is reported by an ordinary exception the '
     'caller can handle.',
     ['inputs', 'programs'], 'all inputs and programs',
     'a test that reached such a path would end the test run',
     ['omtools'], [('error reporting', 'omtools')], [])
prop('C26', 'Using an expression never changes it',
     'Applying a function or operator to expressions, arrays or axis '
     'arguments, and building the model for the result, leaves those '
     'operands and arguments as they were, so that any expression can be '
     'used any number of times in any order.',
     ['programs', 'histories'], 'all functions and argument combinations',
     'tests look at results, not at operands afterwards',
     [STD, COMPS, VAR], [('functions only read their operands', STD)], [])
prop('C27', 'if_else selects by the sign of the condition',
     'if_else returns the third operand when the condition is negative and '
     'the second otherwise, for every value and shape, with derivative '
     'one with respect to the selected operand and zero with respect to the '
     'other.',
     ['inputs'], 'all values and shapes',
     'the tests evaluate one branch at one point',
     [STD + '/if_else.py'], [('compute and partials', STD + '/if_else.py')],
     [])
prop('C28', 'Indexing an expression selects the elements NumPy would',
     'x[key], for every key with one non-negative integer or slice per axis '
     'of x, has the shape, initial value, computed value and derivative of '
     'the block that key selects in NumPy (integers keep an axis of one), '
     'however many blocks of x or of other expressions are taken, and '
     'indices out of range (negative integers too) are rejected. Assigning blocks to an output with '
     'such keys places each element of each expression at the position its '
     'key stands for and nowhere else, with matching derivatives.',
     ['inputs', 'programs', 'histories'], 'all keys, shapes and sequences',
     'the tests use a few keys', [VAR, COMPS + '/decompose_comp.py',
                                  COMPS + '/indexed_pass_through_comp.py'],
     [('flat source indices', VAR)], [])
prop('C29', 'einsum contracts the operands as the subscripts say',
     'For every valid explicit subscripts string of letters (or, in the other form, '
     'list of axis names), any number of operands, each used once or '
     'several times, and both formats of derivatives, einsum computes what '
     'NumPy\'s einsum computes from the values of the operands in the order '
     'given, with its shape (a scalar result has shape (1,)), and its '
     'derivatives with respect to every operand are exact. An unknown '
     'format, and subscripts that do not fit the operands (their number, ranks, '
     'lengths other than one, unknown or repeated subscripts of the result), '
     'are refused.',
     ['inputs', 'programs'], 'all subscripts and operand counts',
     'few subscripts are tested',
     [STD + '/einsum.py', STD + '/einsum_new_api.py',
      COMPS + '/einsum_comp_dense_derivs.py',
      COMPS + '/einsum_comp_sparse_derivs.py'],
     [('component compute and partials',
       COMPS + '/einsum_comp_dense_derivs.py')], [])
prop('C30', 'The model has the variables and subsystems a group declares',
     'Every input, output and independent variable made on a group has, in '
     'the model, the name and shape given and (but for outputs assigned by '
     'blocks) the initial value given (a number fills the shape; an array or list gives the shape if none is given and is '
     'refused if its shape differs); an output defined by an expression has '
     'its value and identity derivative, and an independent variable holds '
     'its value and is a design variable exactly if declared so. A subsystem '
     'group is added once, under its name, with the promotions given, also '
     'when it is made in place. '
     'Separate groups and variables share no state.',
     ['programs', 'inputs'], 'all names, shapes, values and declarations',
     'the tests declare a few variables with default settings',
     [GRP, 'omtools/core/indep.py', 'omtools/core/input.py',
      'omtools/core/explicit_output.py', 'omtools/core/subsystem.py',
      'omtools/utils/get_shape_val.py', COMPS + '/pass_through_comp.py'],
     [('declarations and the components built for them', GRP)],
     ['Problem[...] before and after run_model', 'names of the subsystems'])

prop('C31', 'Building a model does not slow down with shared expressions',
     'Defining an explicit or implicit output and setting up a group or an '
     'implicit component take a number of steps that grows moderately with '
     'the number of expressions and their operands, and never with the number of '
     'paths between them: in a chain where every expression is used twice '
     'by the next one, another link does not double the work.',
     ['programs'], 'all graphs of expressions in which some are shared',
     'the models of the tests share few expressions, so that following '
     'every path costs nothing',
     [VAR, GRP, 'omtools/core/graph.py',
      'omtools/utils/collect_input_exprs.py',
      'omtools/utils/replace_output_leaf_nodes.py'],
     [('traversals of the graph of expressions', VAR)],
     ['time of Problem.setup'])

prop('C32', 'A whole model computes what its expressions say',
     'In a model written with any mix of declarations, operators, functions, '
     'indexing, assigned blocks and subsystems, every registered or created '
     'output and every independent variable has, under its own name, the value '
     'its expression stands for at the values of the inputs and independent '
     'variables. Each name is computed by one component and read only after '
     'that, with the shape it was given; the derivatives of every component '
     'of the model are those of its values.',
     ['programs', 'inputs'], 'all models without implicit outputs, at all '
     'values of their inputs',
     'each test looks at one operation or at one small model; how operations '
     'share names, shapes, values and state depends on the whole program',
     ['omtools/core', 'omtools/std', 'omtools/comps', 'omtools/utils'],
     [('operators', VAR), ('pipeline', GRP),
      ('registration', GRP)],
     ['values of the outputs after run_model', 'compute_partials of every '
      'component'])

prop('C33', 'Arrays changed after their use leave the model as it was written',
     'An expression keeps the numbers that an array given to one of its '
     'operators (+ - * / **) held at that time; likewise the values arrays '
     'give to inputs, independent variables and outputs when these are '
     'declared, and to the brackets of implicit outputs. Changing the '
     'entries of such an array later, before or during the setup of the '
     'problem, changes neither what the model computes nor the values it '
     'starts from.',
     ['programs', 'histories'], 'all models, and all points in time at which '
     'an array they were written with is overwritten',
     'tests give every expression an array of its own and never touch it '
     'again; the result depends on when the model reads the array',
     ['omtools/core/variable.py', 'omtools/core', 'omtools/utils',
      'omtools/comps/implicit_component.py'],
     [('operators', VAR), ('declared values', 'omtools/utils/get_shape_val.py'
                           '::get_shape_val'),
      ('brackets', 'omtools/core/implicit_output.py::ImplicitOutput.'
       'define_residual_bracketed')],
     ['values of the outputs after run_model', 'initial values of inputs and '
      'outputs'])
prop('C34', 'Setting a problem up again gives the same model',
     'When a problem is set up again, its model consists of the same '
     'components in an order that computes the same values under the same '
     'names as after the first setup; this holds for expressions defined '
     'before setup and in it, and for child groups. Implicit components '
     'that are set up again declare, evaluate, differentiate, solve and '
     'bracket the same residuals.',
     ['programs', 'histories'], 'all models whose setup defines the same '
     'expressions each time',
     'tests set each problem up once; state that the first setup leaves '
     'behind shows only in the second one, and which state depends on the '
     'program',
     ['omtools/core', 'omtools/comps/implicit_component.py'],
     [('pipeline', GRP), ('graph', VAR),
      ('implicit components', 'omtools/comps/implicit_component.py::'
       '_post_setup')],
     ['setup followed by setup and run_model'])

NA = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': ' '.join(p['statement'].split()),
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [
                    {'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None},
            }) + '\n')
    checks = []
    na = []
    for p in P:
        s = CHECKS.get(p['id'])
        if s is None:
            na.append({'property': p['id'], 'reason': NA.get(
                p['id'], 'static check not built yet')})
            continue
        cmd = 'python3 check.py %s' % p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd,
            'thorough_cmd': 'VERIF_TIER=thorough ' + cmd,
            'technique': s.explanation, 'level': s.level,
            'level_note': s.note if getattr(s, 'note', None) else
            'static decision over every path and build site; an obligation '
            'the analysis cannot decide is counted in the evidence and '
            'never reported as a violation'})
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast"',
         'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis with the Python standard library only; '
         'no part of /repo is imported or executed. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'checks')


main()
