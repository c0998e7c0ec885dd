#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=observe, hook_needed=hook)))
B='src/bezier_spline.inc'; BH='src/bezier_spline.hpp'; R='src/rational_bezier_spline.inc'; RH='src/rational_bezier_spline.hpp'
PT='src/point.hpp'; BP='src/utils/algorithms/bernstein_polynomial.hpp'; RC='src/utils/algorithms/recursive_combine.hpp'
FB='src/utils/fastbinomialcoefficient.hpp'; BT='src/utils/binomialcoefficientlookuptablecreator.hpp'
B64='src/utils/base64.hpp'; LG='src/utils/logger.hpp'; AD='src/utils/computational_differentiation/algo_diff_type.hpp'; ADI='src/utils/computational_differentiation/algo_diff_type.inc'

p('C01','Polynomial evaluation equals the Bernstein definition',
 'For every polynomial spline and every parameter point of the unit domain, direct evaluation and basis-function evaluation both return the tensor-product Bernstein combination of the control points, stored with the first parametric index running fastest. The reported basis functions (per direction and combined) are the Bernstein values in control-point order, are non-negative and sum to one, and the corner parameters return the corner control points.',
 ['inputs','histories'],'all degrees per direction below the binomial limit, 1 to 4 parametric dimensions, scalar and point-valued control points, every parameter point, every history of operations that produced the spline',
 'Tests evaluate one or two fixed shapes (equal degrees, one direction elevated) at random points and mostly compare one routine with the other; unequal degrees, degree 0, 3 or more directions and splines reached through other operations are never exercised.',
 [B,BH,BP,RC],[('de Casteljau collapse per parametric direction','Evaluate in '+B),('Bernstein values and recursive tensor combination','BasisFunctions, ForwardEvaluate in '+B)],
 ['Evaluate','ForwardEvaluate','BasisFunctions','BasisFunctionContributions'])
p('C02','Rational evaluation equals the weighted Bernstein quotient',
 'For every rational spline with positive weights and every parameter point, direct evaluation and basis-function evaluation both return the weighted Bernstein sum of control points divided by the weight function. The rational basis functions sum to one, the unweighted variant is the same values without the weight factor, and a spline with equal weights behaves as the polynomial spline with the same control points.',
 ['inputs','histories'],'all degree combinations, positive weights, parameter points, and histories of rational operations',
 'The existing forward-evaluation test compares values only with their own mirror image, and evaluation is tested on one quarter circle.',
 [R,RH],[('numerator and weight function evaluated as polynomial splines and divided','Evaluate, UnweightedBasisFunctions, ForwardEvaluate in '+R)],
 ['Evaluate','ForwardEvaluate','BasisFunctions','UnweightedBasisFunctions','BasisFunctionContributions'])
p('C03','Polynomial derivatives are the true partial derivatives',
 'For every polynomial spline and every tuple of derivative orders, the closed-form derivative spline, the pointwise derivative evaluation and the control-point sum over the basis-function derivatives all equal the true mixed partial derivative. This includes order zero, mixed orders, and orders above the degree, for which the derivative is identically zero.',
 ['inputs','histories'],'all degrees, all order tuples (including orders exceeding the degree), all parameter points, splines reached by other operations',
 'Tests compare two implementations with each other for random orders strictly below the degree, in one equal-type 3-D case and one line.',
 [B,BP],[('in-place forward differences along each direction','DerivativeWRTParametricDimension in '+B),('Bernstein derivative recursion','EvaluateDerivative in '+BP)],
 ['DerivativeWRTParametricDimension','EvaluateDerivative','BasisFunctionsDerivatives','BasisFunctionsDerivativeContributions'])
p('C04','Rational derivatives are the true partial derivatives',
 'For every rational spline with positive weights and every tuple of derivative orders, the closed-form derivative spline and the pointwise derivative evaluation equal the true mixed partial derivative of the quotient. The derivatives of the rational basis functions combine the unweighted control points to the same value.',
 ['inputs','histories'],'all degrees including degree zero in a direction, all order tuples, all positive weights, parameter points',
 'Tests compare the two implementations with each other on one 3x3-degree surface for four order tuples.',
 [R],[('repeated quotient rule with re-elevation of the numerator','DerivativeWRTParametricDimension in '+R),('generalised Leibniz recursion over lower orders','EvaluateDerivative, BasisFunctionsDerivatives in '+R)],
 ['DerivativeWRTParametricDimension','EvaluateDerivative','BasisFunctionsDerivatives'])
p('C05','Degree elevation never changes the represented function',
 'Elevating a polynomial or rational spline along any direction raises exactly that degree by one, leaves the other degrees alone, resizes the control points accordingly and represents exactly the same function. This holds for any chain of elevations in any order and for splines produced by any other operation.',
 ['inputs','histories'],'all degrees, directions, control points and weights, and all elevation chains',
 'Tests elevate one line and one surface with equal degrees and sample points; unequal degrees and volumes are not covered.',
 [B,R],[('back-to-front in-place interpolation of control points','OrderElevateAlongParametricDimension in '+B),('both component splines elevated together','OrderElevateAlongParametricDimension in '+R)],
 ['OrderElevateAlongParametricDimension'])
p('C06','Splitting reproduces the original on each sub-interval',
 'Splitting a polynomial or rational spline along any direction at one or several increasing interior positions returns, in order, pieces of unchanged degrees; each piece equals the original restricted to its sub-interval and rescaled to the unit interval. Neighbouring pieces share their interface, the original is not modified, an empty list of positions returns the spline itself, and all other directions are untouched.',
 ['inputs','histories'],'all degrees, directions, split positions in (0,1), sorted lists of positions, splines reached by other operations',
 'Tests only look at the first half, never at a list of positions, and never at a rational spline.',
 [B,R],[('in-place de Casteljau subdivision per fibre','SplitAtPosition in '+B),('successive relative splits of the remainder','SplitAtPosition(vector) in '+B+' and '+R)],
 ['SplitAtPosition'])
p('C07','Polynomial sums, differences, shifts and scalings are pointwise',
 'Adding, subtracting, negating, shifting by a point and scaling polynomial splines yields, at every parameter point, the corresponding pointwise result, whatever the degrees of the operands in each direction. The operation always terminates, and the result has in each direction the larger of the two operand degrees.',
 ['inputs','histories'],'all pairs of degree shapes (equal, larger, smaller, mixed per direction), all control points, all operators in out-of-place and in-place form',
 'Tests add lines of equal degree or two 1-D random splines; subtraction of splines of different degree is never executed.',
 [B,BH],[('elevation of both operands to a common degree','operator+, operator-, operator+=, operator-= in '+B)],
 ['operator+','operator-','operator+=','operator-=','operator*(scalar)','operator*=','unary operator-'])
p('C08','Polynomial products and powers are pointwise',
 'The product of two polynomial splines (scalar with scalar, scalar with point-valued, or point-valued with point-valued as inner product) and every non-negative integer power of a scalar spline equal the pointwise product or power, with degrees added or multiplied per direction.',
 ['inputs','histories'],'all pairs of degree shapes whose sum stays below the binomial limit, all type pairings, all exponents',
 'Tests multiply 1-D splines and raise one quadratic to powers below five.',
 [B,BH,FB],[('discrete convolution with binomial ratios','CombineControlPointsForProduct_ in '+B),('square-and-multiply','RaisePower in '+B)],
 ['operator*(spline)','RaisePower'])
p('C09','Rational arithmetic is pointwise',
 'Adding, subtracting, multiplying, negating, shifting and scaling rational splines yields the pointwise result at every parameter point, whether or not the operands share a weight function and whatever their degrees. Operands with the same weight function keep it and keep their degree.',
 ['inputs','histories'],'all pairs of degree shapes, shared and different weight functions, all operators in in-place and out-of-place form',
 'Tests use one quadratic arc and one partner with the same degree.',
 [R,RH],[('common-denominator arithmetic with a shared-weight shortcut','operator+, operator-, operator+=, operator-=, operator* in '+R)],
 ['operator+','operator-','operator*','operator+=','operator-=','operator*='])
p('C10','Composition equals evaluating the outer at the inner',
 'For every polynomial or rational outer spline and every polynomial or rational inner spline whose control points lie in the unit cube, the composed spline evaluated at any parameter equals the outer spline evaluated at the inner spline, for all four combinations. Its degree in each direction is the inner degree times the sum of the outer degrees, and composing a whole group of inner splines gives the element-wise compositions in order.',
 ['inputs','configurations'],'all outer and inner degree shapes and parametric dimensions within the binomial limit, all control points and positive weights, single and grouped inner functions',
 'Tests sample one bilinear surface with one line and one ring segment; grouped composition is not even instantiated.',
 [B,R,RH],[('Bernstein basis splines of the inner coordinates combined over outer control points','ComposeNumeratorHelper in '+B),('weight function powers as denominator','ComposeDenominatorSpline in '+B)],
 ['Compose'])
p('C11','Composition sensitivities are derivatives wrt outer control points',
 'Composition sensitivities contain exactly one spline per outer control point, in control-point order, each equal to the derivative of the composed spline with respect to that (unweighted) control point: the outer basis function evaluated at the inner spline. Summing sensitivities times control points gives the composed spline, for all four polynomial/rational combinations.',
 ['inputs','configurations'],'all outer and inner shapes, weights and parameter points in all four combinations',
 'Tests compare finite differences for one bilinear surface and line, only for the first few control points.',
 [B,R],[('basis function splines of the composition','ComposeNumeratorHelper<true> in '+B),('rescaling by the weight of each control point','ComposeSensitivity in '+R)],
 ['ComposeSensitivity'])
p('C12','Bounding box and unit-cube mapping are correct',
 'The minimum and maximum corners are the component-wise extrema of the (unweighted) control points and enclose every point of the spline with positive weights. The unit-cube test accepts exactly the splines whose control points lie in the closed unit cube; fitting into the unit cube applies one shift and positive scale per coordinate so that every non-flat coordinate spans zero to one up to rounding, keeps flat coordinates finite and inside, and the result passes the unit-cube test; shift-and-scale applies exactly the given shift and then the given scale to every control point.',
 ['inputs','histories'],'all control point sets including flat coordinates, boundary values and values one rounding step outside',
 'One test maps one non-flat surface; boundary and flat cases are not covered.',
 [B,R],[('component-wise extrema and comparisons','MaximumCorner, MinimumCorner, FitsIntoUnitCube, FitIntoUnitCube, TransposeAndScale in '+B+' and '+R)],
 ['MaximumCorner','MinimumCorner','FitsIntoUnitCube','FitIntoUnitCube','TransposeAndScale'])
p('C13','Control-point addressing is a consistent bijection at all times',
 'In every state a polynomial or rational spline can reach, flat and multi-dimensional indices convert into each other bijectively with the first index running fastest, and every accessor form (variadic, array, const and mutable, weighted, unweighted and weight) addresses the same control point. The reported number of control points, the length of the control-point list and the product of degree plus one always agree.',
 ['inputs','histories'],'all degree shapes in 1 to 4 dimensions, all indices, all histories of construction, assignment, degree update and geometric operations',
 'Tests access a single index of a curve; the unweighted variadic accessor is never used with two indices.',
 [BH,B,RH,R],[('row-based offsets recomputed with the degrees','UpdateIndexOffsets_, LocalToGlobalIndex, GlobalToLocalIndex in '+B)],
 ['ControlPoint','WeightedControlPoint','Weight','LocalToGlobalIndex','GlobalToLocalIndex','GetNumberOfControlPoints','UpdateDegrees'],
 state=[dict(name='index_offsets',meaning='stride of each parametric direction',where=BH)])
p('C14','Base64 export is canonical and round-trips',
 'Encoding any list of trivially copyable numbers or points (including the empty list and entries of any byte size) yields the standard padded base64 text of exactly those bytes, independent of surrounding memory, and decoding that text as the same type returns the same list.',
 ['inputs'],'all byte contents and all list lengths, for entry sizes 1, 2, 4 and 8 and for points',
 'Tests round-trip four lists of 4- or 8-byte entries; single-byte and two-byte entries, the empty list, and the padding bits are not covered.',
 [B64],[('3-to-4 byte grouping with zero padding','Encode in '+B64),('inverse table lookup','Decode in '+B64)],['Base64::Encode','Base64::Decode'])
p('C15','Automatic differentiation yields exact values and gradients',
 'Any expression built from the supported operations of the automatic-differentiation type (arithmetic with values and scalars on either side, in-place forms, exp, log, log10, sqrt, pow, abs, trigonometric and inverse trigonometric functions) has the value of the plain computation and, in every component, the exact partial derivative, inside the domain of differentiability. The fixed-size and run-time-size variants agree, and all comparison operators order by value alone.',
 ['inputs','programs'],'all expression programs up to a depth over all supported operations, operand orders, operand aliasing, values in the domain, any number of components',
 'Tests apply each function once to one value; combinations, negative and zero operands, aliasing and comparisons are not covered.',
 [AD,ADI],[('chain rule per operation','operators and friend functions in '+ADI)],['GetValue','GetDerivatives','comparison operators'])
p('C16','Nested differentiation and differentiable splines are exact',
 'Nesting the automatic-differentiation type yields exact first and second derivatives for every supported operation and composition of operations. Evaluating a spline with differentiable control points, parameters or both yields the exact gradients with respect to control points (the basis functions) and parameters (the spline derivative).',
 ['inputs','programs'],'all short expression programs on nested types; all spline shapes within bounds',
 'No test instantiates a nested type or a spline over the differentiable scalar.',
 [AD,ADI,B],[('recursive use of the same rules on the inner type','friend functions in '+ADI),('generic scalar type of splines',BH)],['GetValue','GetDerivatives','Evaluate'])
p('C17','Log messages reach exactly the selected sinks and survive errors',
 'With logging enabled, each message is written once, in order and with its text unaltered, to exactly the console and file sinks selected by the current output level for its kind, with a time stamp exactly if the level selects time stamps, under every sequence of level changes and messages. Nothing written to a log file is lost by a later message or a caught terminating error, and once a terminating error has been raised everything logged to files before is on disk even if the process dies immediately. With logging disabled only terminating errors produce output.',
 ['histories','crash_points','configurations'],'all sequences of level changes, messages of every kind and caught terminating errors; process death after a terminating error',
 'No test enables logging.',
 [LG],[('bit-mask routing','Warning_, Error_, UserInfo_, Logging_, ExtendedInformation_, TerminatingError_ in '+LG),('lazily opened streams','init, close in '+LG)],
 ['std::cout','log_file.log','warning_file.log','error_file.log'],
 state=[dict(name='outputlevel_ and three file streams',meaning='singleton logger state',where=LG)])
p('C18','Const operations are pure and safe to run concurrently',
 'Operations that do not modify their operands depend on nothing but those operands: running them in several threads on shared splines, under any interleaving, gives each caller the result of running alone without any data race, and repeating a call after any other calls gives the same result. No operand is ever modified by them.',
 ['schedules','histories'],'all interleavings of concurrent const operations on shared operands up to a preemption bound, and all call histories up to a depth',
 'Tests are single-threaded and rarely repeat a call after a different one.',
 [B,R,BP,RC,LG],[('no mutable or static state in const paths; work on local copies','const member functions in '+B+' and '+R)],
 ['Evaluate','ForwardEvaluate','BasisFunctions','EvaluateDerivative','SplitAtPosition','Compose','operator+','operator*'])
p('C19','Binomial table and Bernstein polynomials are exact',
 'Every binomial coefficient within the configured table size is exact for every table size, and the Bernstein values and derivatives of every degree and derivative order below that limit equal their definition at every parameter value: values are non-negative and sum to one, derivatives above the degree vanish.',
 ['inputs','configurations'],'all n and k within the table, table sizes including the default and user-defined ones, all degrees and derivative orders, parameters in [0,1]',
 'Tests check random degrees against an envelope and explicit formulas only for degree two.',
 [FB,BT,BP],[('compile-time Pascal triangle',BT),('forward and backward power accumulation','Evaluate, EvaluateDerivative in '+BP)],['choose','Evaluate','EvaluateDerivative'])
p('C20','Point arithmetic is component-wise and exact',
 'Point addition, subtraction, negation, scaling, division by a scalar, scalar divided by point, inner product and norms follow their component-wise definition in every dimension and for integer and floating components. In-place and out-of-place forms agree, also when an argument is a component of, or identical to, the modified point.',
 ['inputs','programs'],'all points over a value alphabet in dimensions 1 to 4, all operators, all aliasing patterns, all short operator sequences',
 'Tests apply some operators once to fixed 3-D points without aliasing.',
 [PT],[('component loops','operators in '+PT)],['operators of Point','SquaredEuclidianNorm','EuclidianNorm'])
p('C21','Splines are values: no aliasing, no side effects, exact equality',
 'Copies, assigned splines and results of operations never share state with their sources, operands passed as constants are never changed, and in-place operators give the same result as their out-of-place counterparts even when the argument is the spline itself or one of its own control points. Two splines compare equal exactly when degrees and all control points agree.',
 ['inputs','histories'],'all operations, all operand aliasing patterns, all single-control-point differences and equal-size degree permutations, all histories',
 'Tests never alias operands or mutate a copy.',
 [BH,B,RH,R],[('by-value storage and defaulted copies',BH),('in-place loops over control points','operator+=, operator-=, operator*= in '+B+' and '+R)],
 ['all operators','operator==','copy construction and assignment'])
p('C22','Invalid requests are always rejected without side effects',
 'Splitting outside the open unit interval or at non-increasing positions, composing with an inner function that leaves the unit cube (in any of the four combinations, also for sensitivities), extracting a coordinate that does not exist, raising a point-valued spline to a power and asking an undefined spline for its corners raise a runtime error, in every build type and at every output level. All operands are unchanged and usable afterwards, and valid requests at the boundary are not rejected.',
 ['inputs','configurations','histories'],'all invalid-argument classes at every position and magnitude, all output levels, debug and release builds',
 'No test triggers a rejection.',
 [B,R,RH,LG],[('guard clauses calling the terminating error','SplitAtPosition, Compose, ComposeSensitivity, ExtractDimension, RaisePower, MaximumCorner, MinimumCorner in '+B+' and '+R),('exception independent of logging','TerminatingError_ in '+LG)],
 ['std::runtime_error'])
p('C23','Results do not depend on the build configuration',
 'Every operation gives the same results and accepts and rejects the same inputs (up to rounding) in debug builds with assertions, in release builds without them, with logging compiled in at any output level, with a larger binomial table, and for single, double and extended precision scalars within their accuracy.',
 ['configurations','histories'],'all build configurations (assertions, optimisation, logging and output level, binomial table size, compiler, scalar type) times all operation histories within bounds',
 'The test suite is only built in debug without logging and only for double.',
 [B,R,LG,FB,'CMakeLists.txt'],[('assertions free of side effects',B),('logging only formats text',LG)],['all public operations'])
p('C24','No operation touches memory it should not',
 'No valid operation, in any history, reads or writes outside its objects, uses uninitialised or freed memory, overflows a signed integer or leaks.',
 ['inputs','histories'],'all operation histories within bounds over polynomial and rational splines, the base64 codec and the utilities, including degree zero and single control points',
 'Tests run without memory checkers and on few shapes, so an out-of-range read that happens to be harmless passes.',
 [B,R,B64,RC,BP],[('index arithmetic on flat control-point storage',B),('byte buffers',B64)],['sanitizer reports'])
p('C25','Decoding base64 text never touches memory outside its result',
 'Decoding any text whose length is a multiple of four, as any entry type or point type, returns the complete entries contained in the decoded bytes and neither reads nor writes outside the text and the result, whatever characters and padding it contains and whether or not the decoded bytes are a whole number of entries. In builds without assertions this memory safety extends to truncated texts of any other length.',
 ['inputs'],'all texts over an alphabet with valid, padding, non-base64 and non-ASCII characters up to a length, and all entry sizes',
 'Tests only decode text just produced by the encoder for the same type.',
 [B64],[('sizing of the result and per-byte stores','Decode in '+B64)],['Base64::Decode'])
p('C26','Utility algorithms satisfy their definitions for all inputs',
 'The index sort returns the stable permutation that sorts its input, the tensor combination of factor lists contains every product exactly once with the first list running fastest, and the integer power equals the mathematical power whenever that value is representable in the integer type. The type traits recognise exactly the points, polynomial and rational splines of every dimension and scalar type.',
 ['inputs'],'all short lists over a small alphabet, all factor-list length combinations, all base/exponent pairs with representable result for several integer types, types of several dimensions and scalars',
 'These utilities have no direct tests.',
 ['src/utils/algorithms/sort.hpp',RC,'src/utils/algorithms/int_power.hpp'],[('stable_sort on indices','src/utils/algorithms/sort.hpp'),('compile-time recursion',RC),('square-and-multiply','src/utils/algorithms/int_power.hpp')],['IndexListSort','RecursiveCombine','IntPower'])
p('C27','Printed points and numbers read back',
 "The text of a point (converted or written to a stream) lists every coordinate exactly once and in order between brackets, separated by commas, each reading back as that coordinate correctly rounded to the requested number of significant digits (six by default). The formatting of the stream neither influences a point's text nor is changed by printing it; a differentiable number prints as its plain value would. Printing modifies nothing.",
 ['inputs','histories'],'all combinations of a value alphabet over the coordinates, all precisions, all stream formats within bounds',
 'No test reads printed text back.',
 ['src/point.hpp',AD],[('toString and stream output','src/point.hpp'),('stream output',AD)],['Point::toString','operator<<'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P),'properties')
