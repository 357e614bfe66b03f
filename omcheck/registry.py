"""The properties and the rules that decide them."""
import os
import time
from .sites import World, api_cases, op_cases
from .program import AnalysisError
from .rules import wiring, shapes, effects, contracts, numeric, options, \
    outputs, indexing, graph, declare, names, contraction, implicit, traversal, \
    programs, models, catalogue


class Context(object):
    def __init__(self, root, tier='quick', seed=1):
        self.root = root
        self.tier = tier
        self.seed = seed
        self._world = None
        self._roots = None
        # work that is not done by then is reported undecided
        self.deadline = time.time() + float(
            os.environ.get('OMCHECK_SECONDS', '600'))

    @property
    def world(self):
        if self._world is None:
            self._world = World(self.root)
        return self._world

    def roots(self):
        """Every public function and operator, evaluated abstractly."""
        if self._roots is None:
            w = self.world
            self._roots = [w.run(c) for c in api_cases() + op_cases()]
        return self._roots

    def analysed(self):
        w = self._world
        if w is None:
            return {}
        d = {'modules': len(w.p.modules), 'classes': len(w.p.classes)}
        if self._roots is not None:
            d['build_sites'] = sum(len(r.instances) for r in self._roots)
            d['public_call_cases'] = len(self._roots)
            d['component_classes'] = len(set(
                i.cls.qual for r in self._roots for i in r.instances
                if i.cls is not None))
        return d


class Spec(object):
    def __init__(self, rules, explanation, level='other', assumptions=()):
        self.rules = rules
        self.explanation = explanation
        self.level = level
        self.assumptions = list(assumptions)


OM = ('OpenMDAO and NumPy behave as documented; only the source of omtools '
      'is analysed')
ENGINE = ('calls the engine does not model yield unknown values; an '
          'obligation that depends on one is reported undecided, never as a '
          'violation')

SMALL = ('shapes of rank 1-4 with small sizes, every axis combination and a '
         'set of constants stand for all of them; the entries of the '
         'operands are symbols, so every value is covered')
NORMAL = ('real arithmetic: rounding is not modelled; expressions the '
          'algebraic normal form cannot compare are undecided, and two '
          'expressions are only called different when their normal forms '
          'differ and a valuation separates them')


CONSTANTS = ('a list of constants, numbers of operands and special operand '
             'entries for each operation stands for all')


def value_spec(names, extra=()):
    return Spec(numeric.rules_for(names)[:1] + list(extra),
                'abstract interpretation of compute over algebraic normal '
                'forms of the operand entries, compared with the definition '
                'of the operation, and whole models of one operation each '
                'at given constants',
                assumptions=[OM, ENGINE, SMALL, NORMAL, CONSTANTS])


def jacobian_spec(names, extra=()):
    return Spec(numeric.rules_for(names)[1:] + list(extra),
                'abstract interpretation of declare_partials and '
                'compute_partials over algebraic normal forms, compared '
                'with the symbolic derivative of the value graph of compute, '
                'also in whole models of one operation each at given '
                'constants',
                assumptions=[OM, ENGINE, SMALL, NORMAL, CONSTANTS])


def both_spec(names, extra=()):
    return Spec(numeric.rules_for(names) + list(extra),
                'abstract interpretation of compute, declare_partials and '
                'compute_partials over algebraic normal forms of the '
                'operand entries, compared with the definition of the '
                'operation and with the symbolic derivative of compute, also '
                'in whole models of one operation each at given constants',
                assumptions=[OM, ENGINE, SMALL, NORMAL, CONSTANTS])


G = numeric.GROUPS
ONE = catalogue.RULES
CHECKS = {
    'C01': value_spec(G['C01'], [ONE['C01']]),
    'C02': jacobian_spec(G['C01'], [ONE['C02']]),
    'C03': value_spec(G['C03'], [ONE['C03']]),
    'C04': jacobian_spec(G['C03'], [ONE['C04']]),
    'C05': both_spec(G['C05'], [ONE['C05']]),
    'C06': both_spec(G['C06'], [numeric.rule_no_overflow, ONE['C06']]),
    'C07': both_spec(G['C07'], [ONE['C07']]),
    'C08': value_spec(G['C08'], [ONE['C08']]),
    'C09': jacobian_spec(G['C08'], [ONE['C09']]),
    'C10': both_spec(G['C10'], [ONE['C10']]),
    'C27': both_spec(G['C27'], [ONE['C27']]),
    'C11': Spec([wiring.rule_inputs, wiring.rule_output, wiring.rule_reads],
                'gated value-graph dataflow from every public function and '
                'operator into the component its build closure constructs: '
                'name terms of add_input/add_output/inputs[]/outputs[]/'
                'partials[] against the operands read at build time',
                assumptions=[OM, ENGINE]),
    'C13': Spec([wiring.rule_values, models.rule_initial,
                 declare.rule_declared_values],
                'value-graph dataflow of the val argument of every '
                'add_input to the operand it belongs to, and the values '
                'the inputs of the components of whole models start from',
                assumptions=[OM, ENGINE]),
    'C14': Spec([wiring.rule_deps, models.rule_operands],
                'value-graph dataflow of the dependency list of every '
                'result against the operands of the call',
                assumptions=[OM, ENGINE]),
    'C15': Spec([wiring.rule_partials, wiring.rule_assigned_declared,
                 wiring.rule_forward],
                'path-sensitive must-assign analysis of outputs and '
                'declared derivative pairs in compute and compute_partials',
                assumptions=[OM, ENGINE]),
    'C12': Spec([shapes.rule_shapes],
                'shape terms of results and add_input/add_output '
                'declarations, extracted by value-graph dataflow, compared '
                'over an enumerated space of small shapes and axes',
                assumptions=[OM, ENGINE, 'shapes of rank 1-4 and sizes 1-4 '
                             'stand for all shapes']),
    'C18': Spec([shapes.rule_rejects, shapes.rule_values_refused],
                'path conditions of every raise statement, extracted by '
                'abstract interpretation, compared with the specified '
                'acceptance predicate over an enumerated space of small '
                'shapes and axes',
                assumptions=[OM, ENGINE, 'shapes of rank 1-4 and sizes 1-4 '
                             'stand for all shapes']),
    'C16': Spec([effects.rule_purity, effects.rule_stateless],
                'effect analysis of compute and compute_partials of every '
                'build site: in-place changes of inputs, options, operands '
                'and attributes, through views and helper parameters',
                assumptions=[OM, ENGINE]),
    'C17': Spec([contracts.rule_kinds],
                'abstract interpretation of every public function and '
                'operator with one operand of an unsupported kind: every '
                'path must end in a TypeError',
                assumptions=[ENGINE]),
    'C19': Spec([contracts.rule_api, contracts.rule_options],
                'agreement of the options each build site passes with the '
                'options the component declares and reads',
                assumptions=[OM, ENGINE]),
    'C20': Spec(options.RULES,
                'abstract interpretation of histories of declarations, '
                'assignments and reads with symbolic values: the extracted '
                'conditions under which each step raises and the value it '
                'leaves are compared with the declaration',
                assumptions=[ENGINE, 'a set of 5 candidate values and 384 '
                             'declarations stands for all']),
    'C22': Spec(outputs.RULES + [models.rule_blocks],
                'abstract interpretation of histories of definitions, '
                'indexed assignments and registrations with symbolic shapes '
                'and keys: the extracted conditions under which each step '
                'raises are compared with the typestate and index rules',
                assumptions=[ENGINE, 'shapes of rank 1-3 and sizes 1-5 '
                             'stand for all']),
    'C23': Spec(implicit.RULES,
                'abstract interpretation of the wrapped setup and of every '
                'method of implicit components built through the declaring '
                'calls; the inner problem is a value changed by '
                'assignments, setup and runs, and what the methods leave in '
                'the vectors is compared with the residuals, derivatives '
                'and linear systems of the model the user wrote',
                assumptions=[OM, ENGINE, 'twelve models with up to three '
                             'outputs and their shapes stand for all']),
    'C28': Spec(indexing.RULES + [models.rule_many_blocks],
                'abstract interpretation of x[key] and y[key] = e with '
                'symbolic keys, shapes and values: conditions, shapes, '
                'initial values, value graphs and partial derivatives of '
                'the components left behind are compared with the positions '
                'the key stands for',
                assumptions=[ENGINE, 'arrays of rank 1-3 and sizes 1-5 '
                             'stand for all']),
    'C21': Spec(graph.RULES + [declare.rule_edges] + programs.RULES,
                'typestate and ordering rules over the effects of the '
                'wrapped setup of an unknown group, extracted by abstract '
                'interpretation; transfer functions of the operations on '
                'edges compared with their specification over symbolic '
                'nodes; edges left by every declaration',
                assumptions=[OM, ENGINE, 'lists of up to 4 edges and graphs '
                             'of up to 3 nodes below a node stand for all']),
    'C29': Spec(contraction.RULES,
                'abstract interpretation of both einsum functions and their '
                'components with the subscripts as constants: value graph '
                'and Jacobian over symbolic entries compared with the sum '
                'over all values of the subscripts',
                assumptions=[OM, ENGINE, NORMAL, 'the enumerated subscripts '
                             'of 1-4 operands of rank 1-3 stand for all']),
    'C30': Spec(declare.RULES30 + [graph.rule_names_promotions,
                                   programs.rule_design],
                'abstract interpretation of every declaring call of a group '
                'with symbolic names, shapes, values and systems, and of '
                'the components the wrapped setup adds: attributes, '
                'component arguments and value graphs compared with what '
                'was declared',
                assumptions=[OM, ENGINE, 'shapes of rank 1-3 stand for '
                             'all']),
    'C31': Spec(traversal.RULES,
                'abstract interpretation of the definition and setup of '
                'chains of shared expressions of three lengths; the number '
                'of times each function is entered and each loop turns must '
                'not double with every link',
                assumptions=[ENGINE, 'chains of 3, 4 and 5 links (of an '
                             'input, an independent variable, an explicit '
                             'output and two kinds of implicit outputs) '
                             'stand for all graphs']),
    'C32': Spec(models.RULES,
                'abstract interpretation of whole programs: the components '
                'that the wrapped setup adds are elaborated, their value '
                'graphs composed by the names they are promoted under and '
                'compared with the meaning of the program; their Jacobians '
                'with the derivatives of their value graphs',
                assumptions=[OM, ENGINE, 'random programs, nested and not, of up to '
                             'eight operations on arrays of rank 1-2 stand for '
                             'all, and programs of one operation on up to '
                             'nine operands, twelve uses, eight blocks or 42 '
                             'elements for large ones; operands take '
                             'rational values, closed '
                             'expressions that are not reduced to one form '
                             'are compared to 1e-6',
                             'components of other packages and implicit '
                             'outputs are left to C23']),
    'C33': Spec(models.RULES33 + implicit.RULES33,
                'abstract interpretation of programs in which every array '
                'is replaced by another one, in every place that refers to '
                'it, right after its use (aliases and views change, copies '
                'do not); what the model built from them computes and '
                'declares must not depend on it',
                assumptions=[OM, ENGINE, 'programs with one array each and '
                             'random ones stand for all; arrays of other '
                             'packages are read when they are given']),
    'C34': Spec(models.RULES34 + implicit.RULES34 + programs.RULES34,
                'abstract interpretation of the setup of whole programs, '
                'run twice on the same groups; the model of the second run '
                'is elaborated and compared with the meaning of the program; '
                'the same for the residuals of implicit components',
                assumptions=[OM, ENGINE, 'OpenMDAO removes the subsystems '
                             'that a setup added, and the variables, before '
                             'it runs the setup again',
                             'the programs of C32 and C23 stand for all']),
    'C24': Spec(names.RULES24,
                'transfer function of one turn of the encoding loop and of '
                'the counter, extracted from the value graph of the name; '
                'uniqueness by induction over the digits',
                assumptions=[ENGINE, 'the digits taken off 4,500 numbers '
                             'stand for those of all']),
    'C25': Spec([effects.rule_no_exit],
                'resolution of every name reference in every function to '
                'the process-ending primitives', assumptions=[]),
    'C26': Spec([effects.rule_operands_untouched],
                'effect analysis of every public call, of building its '
                'component and of the component setup', assumptions=[
                    OM, ENGINE]),
}
