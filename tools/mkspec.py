"""writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'omtools/core/group.py'
V = 'omtools/core/variable.py'
GR = 'omtools/core/graph.py'
EO = 'omtools/core/explicit_output.py'
IO_ = 'omtools/core/implicit_output.py'
IC = 'omtools/comps/implicit_component.py'


def P(id, title, statement, over, text, why, files, mech, level, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level,
                observe=observe or ['values and total derivatives reported by the problem after it is run'], state=state)


OPS = 'tests run about one hand-picked shape and value per operation'
PROPS = [
    P('C01', 'An expression program computes what its formulas mean',
      'Running a model built from expressions yields, for every registered output, the value the formulas have in ordinary array arithmetic at the current inputs. This holds however the expressions share sub-expressions, repeat operands, and are registered or left anonymous.',
      ['programs', 'inputs'], 'all straight-line programs of bounded depth over the arithmetic and elementary alphabet, shapes, registration choices, input points',
      'tests fix one program each; composition of operations, sharing and repeated operands form an unbounded family', [V, G, 'omtools/comps/arithmetic_comps/power_combination_comp.py', 'omtools/comps/linearcombination_comp.py'],
      [('operator overloading records the operation and its operands', V), ('one component built per expression and connected by name', G + ':_post_setup')],
      'all programs to depth 3 (4 in thorough) executed on the real code and compared with an independent interpreter'),
    P('C02', 'Total derivatives of a program are the exact derivatives',
      'Total derivatives of every output of an expression model with respect to every input equal the mathematical derivatives, in forward and in reverse mode. They stay exact at every point where the formulas are differentiable.',
      ['programs', 'inputs'], 'all programs of C01 in both modes at several points',
      'tests check partials of single components at one point, mostly by finite differences', ['omtools/comps', V],
      [('analytic partials with declared sparsity in every component', 'omtools/comps/*.py'), ('repeated operands merged', 'omtools/utils/process_options.py')],
      'all programs to depth 3 (4 in thorough), totals against complex step through the reference'),
    P('C03', 'One pass in the chosen execution order is enough',
      'In a model without cyclic definitions, everything is computed before it is used, so a single pass brings all outputs up to date from any state. This holds for either branch-sorting preference, any order of registering outputs, and outputs used by their names in the group that computes them.',
      ['programs', 'configurations'], 'all dependency graphs up to a number of nodes, registration disciplines, branch order options, kinds of inputs',
      'tests contain a handful of fixed graphs', [G, GR, V],
      [('topological sort by number of dependents', GR + ':topological_sort'), ('transitive reduction before sorting', GR + ':remove_indirect_dependencies'), ('branch costs', V + ':compute_dag_cost')],
      'all graphs to 5 nodes (6 in thorough) built and run on the real code; staleness shows in the first pass'),
    P('C04', 'Results do not depend on registration order or memory placement',
      'Building the same model gives the same results whatever order its outputs are registered in and wherever its expression objects happen to lie in memory. Results are reproducible from one process to the next.',
      ['schedules', 'programs'], 'all permutations of registration order; all relative placements of the first expression objects (which decide set iteration order)',
      'a test run samples one arbitrary placement per process and cannot choose it', [V, GR, G],
      [('dependency sets are deduplicated through sets, so their order is arbitrary', V + ':_dedup_dependencies'), ('sorting must absorb that order', GR)],
      'all permutations enumerated by controlling the hash order of expression objects in the real code'),
    P('C05', 'Every registered result is in the model and nothing unused is',
      'Each registered output and each independent variable exists in the built model under its name and is computed, however many of them a group has and however they depend on each other. Expressions and inputs that nothing registered needs are neither built nor evaluated.',
      ['programs'], 'all chain patterns in groups of 6 to 12 outputs, gathered by operations and child systems with as many operands; all subsets of registered results of small graphs; sequences with unused variables',
      'tests have at most a few outputs per group', [G, GR, V],
      [('graph rooted at the registered outputs', G + ':register_output'), ('transitive reduction by index', GR + ':remove_indirect_dependencies')],
      'all patterns enumerated on the real code under three memory placements'),
    P('C06', 'Child systems run where they were added',
      'A child system sees the outputs registered before it was added, and inputs declared after it was added see its outputs, for any sequence of expressions, independent variables and child systems of any kind. An output created before a child system and filled afterwards may be computed from the results of that system. The whole model needs a single pass.',
      ['programs', 'histories'], 'all sequences of group-building steps up to a length over an alphabet with six kinds of child systems and three ways of reading',
      'tests cover about five fixed arrangements', [G, 'omtools/core/subsystem.py', GR],
      [('child system depends on everything registered so far', G + ':add_subsystem'), ('inputs declared later depend on the last child system', G + ':declare_input')],
      'all sequences to length 3 and reduced ones to 4 (5 in thorough), replayed on the real code'),
    P('C07', 'Splitting a model into child groups changes nothing',
      'Cutting an expression model into child groups, to any depth, with any way of promoting or connecting variables, leaves all values and derivatives as in the flat model.',
      ['programs', 'configurations'], 'all small graphs, all ways to cut them into segments, kinds of child groups, promotion styles',
      'tests have a few fixed hierarchies with everything promoted', [G, 'omtools/core/subsystem.py'],
      [('promotion arguments are passed on', G + ':add_subsystem'), ('with-context child groups', G + ':create_group')],
      'cuts x kinds x promotions enumerated on the real code against the flat meaning'),
    P('C08', 'Cyclically defined outputs converge to their fixed point',
      'An output defined in terms of itself or assembled from its own elements, or outputs defined in terms of each other, settle under an iterative solver at values satisfying their defining formulas, and everything computed from them is consistent with those values. Derivatives through the cycle are those of the implicit function.',
      ['programs', 'configurations'], 'all small contractive right-hand sides, rings and pairs of coupled outputs, definition orders, downstream uses, solver combinations, placement in a child group',
      'tests run three fixed scalar equations', [EO, 'omtools/utils/replace_output_leaf_nodes.py', 'omtools/comps/pass_through_comp.py', GR],
      [('self references replaced by inputs of the same name', 'omtools/utils/replace_output_leaf_nodes.py'), ('pass-through closes the loop', EO + ':define')],
      'enumerated on the real code; the model\'s own values are checked to be a fixed point of the reference'),
    P('C09', 'An output assembled by index is exactly the assembled array',
      'An output filled by assigning expressions to disjoint integer, slice or tuple indices has each expression\'s entries at the assigned positions. The order of the assignments, and whether the pieces or the output are used or registered earlier or later, make no difference.',
      ['programs', 'inputs'], 'all partitions of small arrays into index keys, all orders, kinds of pieces, registration times, uses',
      'tests assign three fixed patterns', [EO, 'omtools/comps/indexed_pass_through_comp.py', 'omtools/utils/slice_to_list.py'],
      [('flat target indices computed per assignment', EO + ':__setitem__'), ('scatter component', 'omtools/comps/indexed_pass_through_comp.py')],
      'all covers of arrays up to 4 (6) entries by keys enumerated on the real code'),
    P('C10', 'Reading elements and slices selects exactly those entries',
      'Indexing an expression with an integer, slice or tuple yields the selected entries, in order, as an expression of the selected shape, with matching derivatives. Any number of selections from one array, repeated or overlapping, are independent of each other.',
      ['programs', 'inputs'], 'all int/slice/step keys on small arrays; all sequences of up to 3 keys on one array; kinds of sources and consumers',
      'tests read a few fixed slices of declared inputs', [V, 'omtools/comps/decompose_comp.py', 'omtools/utils/slice_to_list.py'],
      [('keys normalised and cached per array', V + ':__getitem__'), ('one gather component per array', 'omtools/comps/decompose_comp.py')],
      'all keys and key sequences enumerated on the real code'),
    P('C11', 'Implicit outputs satisfy their residuals and differentiate through them',
      'A component defined by residual expressions drives each residual to zero under a Newton solver and reports outputs at which the residuals vanish for the current inputs. Its derivatives are those of the implicitly defined function, also when residuals involve child systems, several outputs, or arrays.',
      ['programs', 'inputs'], 'residual expressions of bounded size, scalar and elementwise array, one or several outputs, shared inputs, child systems inside, solver choices',
      'tests solve a few fixed quadratics', [IC, IO_, 'omtools/utils/collect_input_exprs.py'],
      [('residual graph run as an inner problem', IC), ('inner totals become partials', IC + ':linearize')],
      'all small residual programs enumerated on the real code'),
    P('C12', 'Bracketed implicit outputs find the root inside the bracket',
      'A bracketed implicit output ends up, for every entry separately, at a root of its residual inside its bracket whenever the residual changes sign there, whichever end is positive. Several bracketed outputs keep their own brackets.',
      ['programs', 'inputs'], 'residuals, bracket positions and orientations, scalar and array brackets, several outputs',
      'tests use one bracket per sign of a quadratic', [IC, IO_],
      [('bisection on masks per entry', IC + ':solve_nonlinear'), ('bracket table', IO_ + ':define_residual_bracketed')],
      'all combinations enumerated on the real code; both the root and the bracket are checked'),
    P('C13', 'Matrix, vector and tensor products equal their definitions',
      'Matrix-matrix, matrix-vector, inner, outer, dot and cross products equal their mathematical definitions, in value, shape and derivative, for every conforming combination of shapes, contracted axes and kinds of operands.',
      ['inputs', 'configurations'], 'all shape combinations with dimensions up to 3, all axes, operand kinds', OPS,
      ['omtools/std/matmat.py', 'omtools/std/matvec.py', 'omtools/std/inner.py', 'omtools/std/outer.py', 'omtools/std/dot.py', 'omtools/std/cross.py', 'omtools/comps'],
      [('hand-derived sparsity patterns per shape', 'omtools/comps/matmat_comp.py, tensor_*_product_comp.py, cross_product_comp.py')], 'all combinations enumerated on the real code'),
    P('C14', 'Sums, averages and norms reduce exactly the given axes',
      'Sum, average and p-norm over all entries, over any set of axes, or over several arrays equal their definitions in value, shape and derivative for every shape.',
      ['inputs', 'configurations'], 'shapes to rank 4, every axis set, 1-3 operands, norm orders', OPS,
      ['omtools/std/sum.py', 'omtools/std/average.py', 'omtools/std/pnorm.py', 'omtools/comps/single_tensor_average_comp.py', 'omtools/comps/vectorized_axiswise_pnorm_comp.py'],
      [('row/column maps from input to reduced entries', 'omtools/comps/single_tensor_sum_comp.py and relatives')], 'all combinations enumerated on the real code'),
    P('C15', 'Smooth extrema aggregate the right entries and bound the true extremum',
      'Smooth maxima and minima over all entries, along an axis, or elementwise across arrays equal the Kreisselmeier-Steinhauser aggregate with the requested sharpness, never undercut the true maximum or exceed the true minimum, and have matching derivatives. Large magnitudes and ties do not overflow.',
      ['inputs', 'configurations'], 'shapes, axes, operand counts, sharpness values, ties, magnitudes', OPS,
      ['omtools/std/max.py', 'omtools/std/min.py', 'omtools/comps/scalar_extremum_comp.py', 'omtools/comps/axiswise_max_comp.py', 'omtools/comps/elementwise_max_comp.py'],
      [('shifted log-sum-exp', 'omtools/comps/scalar_extremum_comp.py, axiswise_*_comp.py, elementwise_*_comp.py')], 'all combinations enumerated on the real code'),
    P('C16', 'Elementary functions are applied entry by entry with exact derivatives',
      'Each elementary function returns an array of its operand\'s shape holding the function of every entry, with exact derivatives, for operands of any shape and any values inside the domain of definition.',
      ['inputs'], '18 functions, shapes to rank 3, operand kinds, several points of each domain', 'the elementary functions have no tests of their own',
      ['omtools/std', 'omtools/comps'], [('one component per function with diagonal partials', 'omtools/comps/sincomp.py and relatives')], 'all combinations enumerated on the real code'),
    P('C17', 'Expanding, reshaping and reordering move every entry to its place',
      'Expanding, reshaping, transposing and reordering axes place every entry where the corresponding array operation places it, for every shape, axis order and set of new axes, with derivatives to match.',
      ['inputs', 'configurations'], 'all shapes of equal size, all permutations to rank 4, all expansion axes', OPS,
      ['omtools/std/expand.py', 'omtools/std/reshape.py', 'omtools/std/transpose.py', 'omtools/std/reorder_axes.py', 'omtools/comps/array_expansion_comp.py', 'omtools/utils/decompose_shape_tuple.py', 'omtools/utils/reorder_axes_utils.py'],
      [('index arrays', 'omtools/utils/get_array_indices.py'), ('einsum strings for expansion', 'omtools/utils/decompose_shape_tuple.py')], 'all combinations enumerated on the real code'),
    P('C18', 'Rotation matrices are rotations about the named axis',
      'For every shape of angles and every axis the rotation-matrix operation returns, per angle, the proper rotation about that axis (orthogonal, determinant one), with exact derivatives.',
      ['inputs'], 'axes, angle shapes, angles in all quadrants and large', OPS, ['omtools/std/rotmat.py', 'omtools/comps/rotation_matrix_comp.py'],
      [('entries filled by flat index', 'omtools/comps/rotation_matrix_comp.py')], 'all combinations enumerated on the real code'),
    P('C19', 'Einstein summation follows its subscripts',
      'Einstein summation in either notation, with dense or sparse derivatives, equals the sum its subscripts define, in value and derivative, for every subscript pattern including scalar results and repeated operands.',
      ['inputs', 'configurations'], 'all subscript strings over 3 letters with 1-2 operands, a family with 3, both notations, both derivative formats',
      'tests use six strings and every test with sparse derivatives fails on the original code',
      ['omtools/std/einsum.py', 'omtools/std/einsum_new_api.py', 'omtools/comps/einsum_comp_dense_derivs.py', 'omtools/comps/einsum_comp_sparse_derivs.py', 'omtools/utils/einsum_utils.py'],
      [('derivatives by einsum with an identity in place of the operand', 'omtools/comps/einsum_comp_*_derivs.py')], 'all strings enumerated on the real code'),
    P('C20', 'A conditional takes the branch its condition selects',
      'A conditional expression equals its second operand where the condition is not negative and its third where it is negative, in value and derivative. The choice follows the condition every time the model is run.',
      ['inputs', 'histories'], 'signs of the condition, shapes, nesting, shared roles of one expression, sequences of evaluation points', 'conditionals have no test',
      ['omtools/std/if_else.py'], [('branch on the sign in compute and compute_partials', 'omtools/std/if_else.py')], 'all combinations enumerated on the real code'),
    P('C21', 'Evaluations do not influence each other',
      'What an evaluation returns depends only on the inputs it is given: not on earlier evaluations, derivative computations, finite-difference checks, or on setting up the problem again, as the same model or as another one, wherever in the model the group is, after a setup that failed, or with statements that were executed before the first setup.',
      ['histories'], 'all histories of bounded length over run at two points, total derivatives, derivative checks, renewed setup; sequences of different models set up on one object', 'each test evaluates a fresh problem once',
      ['omtools/comps', G], [('state kept on components between calls must be refreshed', 'omtools/comps/scalar_extremum_comp.py, axiswise_*_comp.py, implicit_component.py'), ('setup clears the graph', G)],
      'all histories enumerated on the real code for every operation'),
    P('C22', 'Ill-formed models are refused',
      'Models that have no meaning (mismatching shapes, operands that are not expressions, repeated registration or definition, undefined outputs, overlapping or out-of-range assignment, bad axes, division by a zero constant) are refused with an error and never run and produce values. Their well-formed neighbours are accepted.',
      ['programs'], 'bounded families of ill-formed uses of every operation and building step, each next to its well-formed neighbour', 'tests cover some thirty single instances',
      [V, G, EO, 'omtools/std'], [('explicit checks raising errors', 'omtools/std/*.py, ' + EO)], 'all members of the families enumerated on the real code; neighbours must be accepted'),
    P('C23', 'Default values given to inputs and outputs are honoured',
      'An unconnected input holds the default value it was declared with, in full shape, whichever operations and however many of them use it, and the outputs are computed from it. Independent variables start at the value given.',
      ['programs', 'configurations'], 'every operation and pairs of operations on one input, scalar / list / array defaults, shapes', 'tests overwrite or ignore defaults except in a few cases',
      ['omtools/core/input.py', 'omtools/core/indep.py', 'omtools/utils/get_shape_val.py', 'omtools/comps'], [('default value handed to each component that uses the input', 'omtools/std/*.py')], 'all combinations enumerated on the real code'),
    P('C24', 'Models built side by side do not affect each other',
      'Groups that are built, set up and run in any interleaved order in one process each behave as they do when built alone.',
      ['schedules'], 'all interleavings of the steps that build, set up and run two models (three small ones in the thorough tier)', 'tests build one model at a time',
      [V, G], [('expression identities from a process-wide counter', V + ':__init__'), ('per-group graphs', G)], 'all interleavings enumerated on the real code', state=[dict(name='counter of expressions', meaning='anonymous names are unique in the process', where=V)]),
    P('C25', 'Independent variables keep their role',
      'An independent variable is an output of the model holding its given value until changed, is available whether or not it is used and before everything that uses it, and is a design variable exactly when asked for.',
      ['programs', 'configurations'], 'positions of independent variables among other steps, shapes, values, design-variable flag, use', 'tests have two fixed examples',
      ['omtools/core/indep.py', G], [('always registered, sorted first', G + ':create_indep_var')], 'all combinations enumerated on the real code'),
    P('C26', 'Option dictionaries enforce their declarations',
      'An option dictionary returns defaults until set, refuses undeclared names, missing required values and values outside the declared types or choices, and an assignment it refuses leaves the value as it was.',
      ['histories'], 'all sequences of declare / set / get / update / delete up to a length, over declarations and values', 'option dictionaries have no test',
      ['omtools/utils/options_dictionary.py'], [('validation on assignment', 'omtools/utils/options_dictionary.py')], 'all sequences enumerated on the real code against a reference state machine'),
    P('C27', 'Arithmetic with literal constants follows ordinary rules',
      'Adding, subtracting, multiplying, dividing and raising to a power with number or array constants, on the sides where they are accepted, equals the ordinary array result in value and derivative and leaves the constants unmodified. Raising zero to a negative power is an error, not the end of the process.',
      ['programs', 'inputs'], 'operators, sides, number and array constants of several types, shapes, operand kinds', 'tests use a few positive scalars',
      [V, 'omtools/comps/arithmetic_comps/power_combination_comp.py', 'omtools/comps/linearcombination_comp.py', 'omtools/utils/process_options.py'],
      [('literals become coefficients, constants and powers of stock components', V)], 'all combinations enumerated on the real code'),
    P('C28', 'Results do not depend on how many expressions exist',
      'A model means the same, and building it does not take twice as long with each step, whatever number of expressions the process has formed before it, and however many operands, outputs, selections, pieces or child groups it has. Names given to unnamed expressions are valid and never repeat.',
      ['histories', 'programs'], 'every number of earlier expressions around each change of length of generated names (up to 250 000), models of every kind; chains (also of thousands), fans and wide operations of every size up to a bound',
      'tests form a handful of expressions per process', ['omtools/utils/gen_hex_name.py', V, EO],
      [('names generated from a running count', 'omtools/utils/gen_hex_name.py')], 'each position of the running count explored in a process of its own, on the real code'),
    P('C29', 'A model keeps what it was given',
      'Literal arrays, default values, brackets, axes, subscripts and promoted names count as they are at the call: changing the array or list later, or handing it to several calls with other contents, does not change what earlier calls meant. Building, running and differentiating a model never change them.',
      ['histories'], 'all histories of changes to the object at five instants from the call to the first run, all pairs (and triples) of places fed from one object',
      'tests never touch an array again after using it', [V, G, 'omtools/utils/get_shape_val.py', 'omtools/core/implicit_output.py', 'omtools/std/inner.py'],
      [('operands and defaults copied on arrival', V + ':check_operands, omtools/utils/get_shape_val.py'), ('components constructed only after setup()', G)],
      'all histories enumerated on the real code against closed formulas of the contents at the call'),
    P('C30', 'Approximated derivatives equal the exact ones',
      'Wherever OpenMDAO is asked to obtain derivatives by finite differences or complex step instead (approx_totals of a model or of a child system, check_partials), it finds the derivatives the model declares: values computed under complex step carry the imaginary parts through every operation, implicit outputs included. Checking leaves no trace: values and exact derivatives asked for afterwards are unchanged.',
      ['inputs', 'histories'], 'every operation, assembled and cyclic outputs, child systems, implicit components with and without brackets, each with every way of approximating',
      'tests compare partials of some examples with finite differences once, and never ask for anything afterwards',
      [IC, 'omtools/comps/vectorized_pnorm_comp.py', 'omtools/comps/arithmetic_comps/power_combination_comp.py'],
      [('complex-safe compute', 'omtools/comps'), ('internal problem under complex step', IC + ':_set_values, _solve_imaginary')],
      'all combinations of model and way of approximating enumerated on the real code; approximations compared with the reference and the exact derivatives'),
    P('C31', 'A model is the statements of its setup, whichever classes they come from',
      'Model classes (Group and ImplicitComponent) can be derived from one another like any Python classes: the model contains exactly what the statements executed by the resolved setup amount to, in the order in which they are executed, however setup is put together - inherited unchanged, overridden, extended before, after or around the setup of the base class, through several levels, several base classes or mixins - and whatever options and attributes the classes add or override. What an overridden setup would have added is not in the model, and instances of one class do not affect each other.',
      ['inputs', 'histories'], 'every hierarchy of two and three classes (four in thorough), every placement of the call of the inherited setup, line, diamond and mixins, options and attributes, as model, child, twice, set up again',
      'the tests derive every model directly from Group',
      [G, IC],
      [('building after the outermost setup', G + ':_post_setup, _ComponentBuilder'), ('internal problem built after the outermost setup', IC + ':_post_setup, _ProblemBuilder')],
      'all hierarchies of the bound built and run on the real code against the closed formulas of the statements in execution order'),
    P('C32', 'Stock components compute what their options say',
      'The components in omtools.comps, constructed directly with options and added to any OpenMDAO or omtools group, compute the function their options describe, with exact derivatives in both modes: linear, power and linear-power combinations, sums, averages, extrema, norms, products, einsum, reordering, reshaping, expansion, pass-through and rotations. Every documented form of an option (one name or a list, number or list or array or dict, list of terms, an output shape given or derived) means the same thing, options left out take their declared defaults, and a component changes neither the objects it was given nor any other component that was given the same objects.',
      ['inputs', 'configurations'], 'every component with every form of its options, alone, in pairs sharing their option objects, set up twice, in both kinds of group',
      'tests reach the components through the expression layer, which uses one form of each option',
      ['omtools/comps', 'omtools/comps/linearpowercombination.py', 'omtools/comps/linearcombination_comp.py', 'omtools/utils/process_options.py'],
      [('options normalised in setup', 'omtools/comps/linearcombination_comp.py, omtools/comps/arithmetic_comps/power_combination_comp.py, omtools/comps/linearpowercombination.py'),
       ('names, shapes and numbers given once for all inputs', 'omtools/utils/process_options.py')],
      'all option forms of the bound enumerated on the real components against closed formulas'),
    P('C33', 'Names carry no meaning',
      'Values and derivatives of a model do not depend on how its inputs, outputs, child systems and implicit outputs are called: any assignment of distinct legal names gives the same model, also when names are prefixes, suffixes, concatenations or case variants of one another, or read like functions, options or keywords. Excluded are names the package generates itself (comp_..., decompose_..., _ and digits) and names OpenMDAO refuses.',
      ['programs', 'inputs'], 'every operation of several operands, assembly, cycles, child systems and residuals under all assignments (rotations and reflections beyond a number of names) of alphabets of names that look alike',
      'tests use a handful of dissimilar names',
      [V, G, IC, 'omtools/utils/collect_input_exprs.py'],
      [('variables identified by object, connected by name', G + ':_post_setup, ' + V), ('states and brackets kept by name', IC)],
      'all assignments of names of the bound built and run on the real code against the reference, which knows no names'),
]

TECH = 'stateless model checking of the implementation: bounded-exhaustive enumeration, every trace run on the real code against an independent reference'


def main():
    checks, lines = [], []
    for p in PROPS:
        if not glob.glob(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '_*.py')):
            print('no module for', p['id'])
            continue
        q = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'],
                              hook_needed=None))
        if p['state']:
            q['anchors']['state'] = p['state']
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        lines.append(json.dumps(q))
        run = '/opt/venv/bin/python -W ignore mc/check.py %s --tier ' % p['id']
        checks.append(dict(property=p['id'], quick_cmd=run + 'quick', thorough_cmd=run + 'thorough', technique=TECH,
                           level='model_checking', level_note=p['level'], evidence_file='evidence/%s.json' % p['id']))
    open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore mc/selftest.py', checks=checks, not_applicable=[])
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
