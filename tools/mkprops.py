#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
        why_tests_cant=why,anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
A='aegir/src/'
OPS=[A+'ops/arithmetic/unary.rs',A+'ops/arithmetic/binary.rs',A+'ops/linalg/mod.rs',A+'ops/logarithmic.rs',A+'ops/sigmoid.rs',A+'ops/special.rs',A+'ops/trig.rs',A+'ops/mod.rs']
p('C01','Evaluating an expression gives the value of the mathematical function',
 'For every expression built from the public operators, variables and constants, and every context that defines its variables with finite values inside the domain of every operator, evaluate returns exactly the elementwise or contracted value the expression denotes, up to floating-point rounding. This holds for scalars, tuples, vectors, fixed-size arrays of every rank, scalar-with-buffer broadcasting in either operand position, and however deeply operators are nested.',
 ['programs','inputs'],'All well-typed expression trees over all operators and buffer types, and all in-domain inputs.',
 'Unit tests evaluate single operators at one or two hand-picked scalar points; they never nest operators of different kinds, use non-square or high-rank arrays, or vary operand representation.',
 OPS+[A+'meta/constant.rs',A+'meta/variable.rs'],
 [('impl_unary! evaluate/evaluate_spec',A+'ops/mod.rs'),('Add/Sub/Mul/Div/Power evaluate',A+'ops/arithmetic/binary.rs'),('Contract evaluate',A+'ops/linalg/mod.rs')],observe=['Function::evaluate'])
p('C02','Lifted evaluation denotes the same buffer as dense evaluation',
 'For every expression and context, and whichever structural representation (raw, homogeneous, diagonal) each constant and variable is supplied in, the lifted result, once materialised, equals the value of dense evaluation of the same expression over materialised inputs, and has the same shape. A structural shortcut therefore never changes a finite result: an operand that is known to be all-zero, all-one, homogeneous or diagonal gives the same answer as the equal dense operand.',
 ['programs','inputs','configurations'],'All expressions, inputs and assignments of raw/full/diagonal representations to the leaves.',
 'Only a handful of shortcut arms are exercised by existing tests, each with one shape and value; combinations of representation per operand, value class (0, 1, other) and shape are multiplicative.',
 OPS+[A+'buffers/spec.rs',A+'buffers/arrays/contraction_ops.rs',A+'lib.rs'],
 [('match arms over (Full|Raw|Diagonal)',A+'ops/arithmetic/binary.rs'),('contract_spec shortcuts',A+'buffers/arrays/contraction_ops.rs'),('impl_unary! evaluate_spec',A+'ops/mod.rs')],observe=['Function::evaluate','Function::evaluate_spec','Spec::unwrap'])
p('C03','Shape evaluation predicts the shape of the value',
 'For every expression and context for which evaluation succeeds, shape evaluation also succeeds and returns exactly the shape of the evaluated value, for statically sized and dynamically sized buffers alike and for derivative expressions too. When two dynamically sized operands of an elementwise operator disagree, shape evaluation fails just as evaluation does.',
 ['programs','inputs'],'All expressions over all buffer types including run-time-sized ones, with matching and mismatching lengths.',
 'Tests call shape evaluation on a few leaves; agreement has to hold for each operator, representation and length combination.',
 OPS+[A+'meta/constant.rs',A+'meta/variable.rs',A+'buffers/shapes/runtime.rs',A+'buffers/shapes/compiled.rs'],
 [('evaluate_shape of each operator',A+'ops'),('Broadcast::broadcast, Contract::contract_shape',A+'buffers')],observe=['Function::evaluate_shape','Shaped::shape'])
p('C04','Differentiating an expression yields its true derivative',
 'For every differentiable expression and every target variable, evaluating the derivative expression at any interior point of the domain gives the true partial derivative (scalar target), gradient or Jacobian (vector target) of the evaluated function, up to rounding, with the output index first and the target index last. A variable that does not occur contributes exactly zero of the right shape.',
 ['programs','inputs'],'All differentiable expression trees, all scalar and vector targets, all in-domain points.',
 'Existing tests differentiate single operators of a bare variable at one or two points; product, quotient, chain and contraction rules are only composed in three examples that are never checked against an independent derivative.',
 OPS+[A+'meta/variable.rs',A+'meta/constant.rs',A+'lib.rs'],
 [('Differentiable::adjoint of each operator',A+'ops'),('VariableAdjoint, ConstantAdjoint',A+'meta')],observe=['Differentiable::adjoint','Differentiable::evaluate_adjoint'])
p('C05','Repeated differentiation yields true higher-order and mixed derivatives',
 'Differentiating a derivative expression again, with respect to the same or a different variable and to any order for which the operators are differentiable, gives the true higher-order or mixed partial derivative of the original function at every interior point. Mixed partial derivatives therefore do not depend on the order of differentiation.',
 ['programs','inputs'],'All differentiable expressions, all sequences of targets (orders 2 and 3), all in-domain points.',
 'No test differentiates twice; derivative expressions use structural zero/one/identity operands that ordinary expressions never produce.',
 OPS+[A+'meta/variable.rs',A+'meta/constant.rs',A+'buffers/spec.rs'],
 [('adjoint of adjoint nodes (Mul/Add/Div/Power/SubOne/XLnX/Rabbit/Sign/ConstantAdjoint)',A+'ops'),('VariableAdjoint::adjoint',A+'meta/variable.rs')],observe=['Differentiable::adjoint applied repeatedly'])
p('C06','Derivative and dual helpers agree with separate evaluation',
 'For every expression, context and target, the one-call derivative helper returns the same value or error as building the derivative expression and evaluating it, and the dual helper returns exactly the pair of the value and the derivative at the same inputs. When the value cannot be computed the dual helper reports that failure, and otherwise when only the derivative fails it reports the derivative failure; no helper invents, hides or mixes up results.',
 ['programs','inputs','fault_sequences'],'All expressions, targets and contexts, including contexts in which any subset of variables is undefined.',
 'Doctests check the helpers at single points with everything defined; failing contexts and value/derivative mix-ups at nested nodes are not covered.',
 [A+'lib.rs',A+'dual.rs',A+'errors.rs'],
 [('evaluate_adjoint, evaluate_dual',A+'lib.rs')],observe=['Differentiable::evaluate_adjoint','Differentiable::evaluate_dual'])
p('C07','An expression depends only on the variables it reports to contain',
 'An expression reports that it contains an identifier exactly when a variable (or cache) with that identifier occurs in it, evaluating it reads no identifier that it does not report, and changing or removing a variable that it does not report never changes its value. The derivative with respect to a target that the expression does not contain is zero everywhere, with the shape of the value extended by the shape of the target.',
 ['programs','inputs'],'All expressions, all identifiers of one or several identifier types, all contexts.',
 'Tests ask containment only of a two-node expression; that nothing else is read can only be seen by observing the context accesses of many different trees.',
 [A+'meta/variable.rs',A+'meta/constant.rs',A+'meta/cached.rs','aegir_derive/src/ops.rs',A+'lib.rs']+OPS[:3],
 [('derive(Contains)','aegir_derive/src/ops.rs'),('Variable::contains, Read::read*',A+'meta/variable.rs')],observe=['Contains::contains','Read::read','Read::read_spec','Read::read_shape'])
p('C08','Undefined variables and shape mismatches are reported, precisely, as errors',
 'Evaluation (value, lifted, shape, derivative) of an expression never panics because a variable is undefined or because dynamically sized operands disagree; it returns an error instead. The error names a variable that really is undefined, or gives both disagreeing shapes in operand order, and its position (left, right, or the operator itself) is the position of the sub-expression that failed first; a missing variable is never masked by a default value.',
 ['programs','inputs','fault_sequences'],'All expressions, all subsets of undefined variables, all combinations of run-time lengths, all operand representations.',
 'One unit test evaluates one operator on an undefined variable; the error path of each operator, operand position and evaluation mode is otherwise unexecuted.',
 [A+'errors.rs',A+'meta/mod.rs',A+'meta/variable.rs',A+'buffers/vecs.rs',A+'buffers/shapes/mod.rs',A+'buffers/shapes/runtime.rs']+OPS[:3],
 [('map_err(BinaryError::Left/Right/Output)',A+'ops'),('SourceError::Undefined',A+'meta/mod.rs'),('IncompatibleShapes',A+'buffers/shapes/mod.rs')],observe=['Result of Function::evaluate*'])
p('C09','A cached node computes once, stores its result and is otherwise transparent',
 'A cached node whose slot is empty evaluates its inner node exactly once, stores that value in its slot and returns it; while the slot is filled, evaluation returns the stored value without evaluating the inner node or reading its variables, until the slot is cleared or overwritten. A failing inner evaluation is returned as is and leaves the slot empty, no other slot or variable is ever modified, and the derivative of a cached node is the derivative of its inner node for any target.',
 ['histories','programs','fault_sequences'],'All histories of evaluate, write, clear and variable-update operations over contexts with several caches, nested or shared caches, and failing inner nodes.',
 'The only cached test evaluates one node once; caching is a statement about sequences of operations on a shared mutable context.',
 [A+'meta/cached.rs','aegir_derive/src/ctx/derive.rs',A+'lib.rs'],
 [('Cached::evaluate',A+'meta/cached.rs')],state=[('cache slot','Option<Buffer> field of the context','contexts generated by ctx_type!/derive(Context)')],observe=['Function::evaluate on Cached','Read::read','Write::write'])
p('C10','A generated context is a faithful store: you read exactly what was last written',
 'For every context type generated by the context macros, reading an identifier (as a value, lifted, or as a shape) returns exactly what was last written to that identifier, or what the context was constructed with; caches read as undefined until written and as the last value afterwards. Writing one identifier never changes what any other identifier reads, whatever the number, order, naming, kind (plain or cache) and type of the fields.',
 ['histories','programs','configurations'],'All generated context types and all histories of reads, dense writes and lifted writes.',
 'Tests instantiate one or two context types and read each field once.',
 ['aegir_derive/src/ctx/derive.rs','aegir_derive/src/ctx/ctx_type.rs','aegir_derive/src/ctx/mod.rs',A+'lib.rs'],
 [('Read/Write impl generation','aegir_derive/src/ctx/derive.rs'),('ctx!, ctx_type!',A+'lib.rs'),('Write::write_spec',A+'lib.rs')],state=[('fields','one per identifier','generated struct')],observe=['Read::read','Read::read_spec','Read::read_shape','Write::write','Write::write_spec'])
p('C11','Evaluation is pure: same inputs, same bits, and no trace left behind',
 'Evaluating, lifting, shaping or differentiating an expression without caches never modifies the context or the expression, and gives bit-for-bit the same result however often and in whatever order it is repeated, on the original, a clone, or a freshly rebuilt copy of the expression. After any history of context updates the result depends only on the current variable values.',
 ['histories','programs','inputs'],'All expressions and all interleavings of evaluations of value, lifted value, shape and derivatives with variable updates.',
 'Tests evaluate each expression once in a fresh context; residual state only shows across a history.',
 [A+'lib.rs',A+'meta/variable.rs',A+'meta/constant.rs']+OPS,
 [('&self evaluation over AsMut<C>',A+'lib.rs')],observe=['Function::evaluate*','context contents before and after'])
p('C12','Buffer construction and element access agree on every index',
 'For every buffer class, building from an index function stores f(i) at index i, full/zeroes/ones/diagonal/identity produce exactly the described elements, and building from an index subset produces active values exactly on the subset and the base value elsewhere. Checked access returns the element for every index inside the shape and nothing outside it, and the shape reported by a buffer is the shape it was built with.',
 ['inputs','configurations'],'All buffer classes (scalars, tuples, vectors, arrays of rank 1 to 5), all dimensions including non-uniform ones, all element types, all indices.',
 'Tests touch rank-1 arrays of length 2 and a scalar; transposed or swapped index positions are invisible for uniform dimensions.',
 [A+'buffers/mod.rs',A+'buffers/scalars.rs',A+'buffers/tuples.rs',A+'buffers/vecs.rs',A+'buffers/arrays/buffer.rs'],
 [('Class::build, build_subset, full, diagonal',A+'buffers/mod.rs'),('Buffer::get, get_unchecked',A+'buffers/mod.rs')],observe=['Class::*','Buffer::get','Shaped::shape'])
p('C13','Elementwise transforms and folds visit each element exactly once, in order',
 'For every buffer, map, by-reference map and in-place mutation apply the function exactly once to each element and put the result at the same index, and the three agree with each other. Fold combines all elements exactly once in row-major index order starting from the initial value, and sum is the total of all elements.',
 ['inputs','configurations'],'All buffer types, shapes and element types, all functions including stateful observers and non-commutative folds.',
 'Tests fold and map two-element arrays with commutative functions.',
 [A+'buffers/mod.rs',A+'buffers/scalars.rs',A+'buffers/tuples.rs',A+'buffers/vecs.rs',A+'buffers/arrays/buffer.rs'],
 [('Buffer::map, map_ref, mutate, fold, sum',A+'buffers/mod.rs')],observe=['closure invocations','results'])
p('C14','Zipping pairs the right elements in the right order or reports both shapes',
 'Combining two buffers elementwise (mapping, same-type mapping, in-place, or folding) pairs elements of equal index, always passing the left operand first, and a scalar operand on either side is paired with every element. Folding proceeds in row-major order, and operands whose run-time shapes differ yield an error that gives the left and right shape in that order, with nothing silently truncated or padded.',
 ['inputs','configurations'],'All pairs of compatible buffer types and ranks, both operand orders, non-commutative functions, equal and unequal run-time lengths.',
 'Tests zip rank-1 arrays with commutative functions; the rank 2 to 5 and scalar-on-the-left paths are not executed.',
 [A+'buffers/mod.rs',A+'buffers/arrays/zip_ops.rs',A+'buffers/vecs.rs',A+'buffers/tuples.rs',A+'buffers/scalars.rs'],
 [('ZipMap, ZipMut, ZipFold',A+'buffers/mod.rs')],observe=['ZipMap::zip_map','ZipMap::zip_map_id','ZipMap::zip_shape','ZipMut::zip_mut','ZipFold::zip_fold'])
p('C15','Tensor contraction is the Einstein sum, in every representation',
 'For every supported pair of operand ranks, contraction over zero axes is the outer product (scaling when one operand is a scalar) and contraction over one axis is the sum of products over the shared axis: dot, matrix-vector, vector-matrix and matrix product, for rectangular operands too. Contracting lifted operands denotes the same result for every combination of raw, homogeneous and diagonal operands, and the predicted result shape is the shape of the result.',
 ['inputs','configurations'],'All supported rank pairs, all dimensions including rectangular ones and 1, all representation pairs, all element types.',
 'Tests use 2x2 or length-2 operands, where transposition, wrong bounds and misplaced square-only shortcuts cannot be seen.',
 [A+'buffers/arrays/contraction_ops.rs',A+'buffers/mod.rs',A+'ops/linalg/mod.rs'],
 [('impl_contract!',A+'buffers/arrays/contraction_ops.rs'),('contract, contract_spec, contract_shape',A+'buffers/mod.rs')],observe=['Contract::contract','Contract::contract_spec','Contract::contract_shape'])
p('C16','Lifted buffers obey the algebra of the dense buffers they stand for',
 'For every lifted buffer (raw, homogeneous or diagonal) materialising it gives exactly the elements it stands for, its shape is the shape of that buffer, and mapping or zipping lifted buffers then materialising equals materialising first and mapping or zipping after, including the failure on mismatching run-time shapes. Zero, one and identity constructors, and conversion from a dense buffer, stand for exactly those buffers.',
 ['inputs','configurations'],'All buffer types, shapes, representation pairs, functions (including ones that do not fix zero) and values.',
 'Doctests map and zip homogeneous rank-1 specs only; diagonal specs and mixed pairs are unexecuted.',
 [A+'buffers/spec.rs',A+'buffers/mod.rs'],
 [('Spec::unwrap, map, zip_map, zeroes, ones, eye, From, IntoSpec',A+'buffers/spec.rs')],observe=['Spec::*'])
p('C17','A shape enumerates exactly its own indices, once each, in row-major order',
 'For every compile-time and run-time shape, index enumeration yields each contained index exactly once in row-major order, its length equals the cardinality, size hints and counts are right at every point of the iteration, an exhausted enumeration stays exhausted, and membership holds exactly for indices below the dimension in every axis; shapes are equivalent exactly if they have equally many indices. Concatenating shapes or indices appends them, splitting undoes concatenation, and broadcasting returns the common shape or an error naming both.',
 ['inputs','configurations'],'All shapes of dimension 0 to 6 including zero-sized and unit axes, all partial iteration prefixes, all index tuples around the boundary.',
 'Tests enumerate one or two small shapes; partial iteration, zero-sized axes, and concat/split of high ranks are not covered.',
 [A+'buffers/shapes/mod.rs',A+'buffers/shapes/compiled.rs',A+'buffers/shapes/runtime.rs',A+'buffers/shapes/multi_product.rs'],
 [('Shape::indices, contains, cardinality, is_equivalent',A+'buffers/shapes/mod.rs'),('MultiProduct',A+'buffers/shapes/multi_product.rs'),('Concat, Split, Broadcast',A+'buffers/shapes/compiled.rs')],observe=['Shape::*','Iterator::next/size_hint/count'])
p('C18','Dual numbers follow the calculus of first-order derivatives',
 'Arithmetic on dual numbers (addition, subtraction, multiplication and negation, between duals or with plain values, by value or by reference) yields in the value part the same operation on the values and in the adjoint part its exact first-order derivative: sum, difference and product rule, with plain values acting as constants. Constructors give adjoint one for variables and zero for constants in every entry, and conjugation negates only the adjoint.',
 ['inputs','programs'],'All sequences of dual operations, operand forms (owned, borrowed, plain) and values.',
 'Tests check a few operations at one point each, and do not check products with plain values.',
 [A+'dual.rs'],[('impl ops::{Neg,Add,Sub,Mul} for Dual',A+'dual.rs'),('Dual::variable, constant, conj, dual!',A+'dual.rs')],observe=['Dual.value','Dual.adjoint'])
p('C19','The rendered text of an expression denotes the same function',
 'The text an expression displays, read back with the usual conventions (brackets, then functions, right-associative powers binding tighter than leading minus, products and quotients before sums, left to right), denotes the same function as the expression, for derivative expressions too. In particular every operator shows its own name, and brackets are present wherever they are needed to tell different expressions apart.',
 ['programs','inputs'],'All expressions made of operators that can be displayed over scalar variables and constants, and their derivatives, at all in-domain inputs.',
 'One doctest renders one expression; nesting, negative constants, powers of powers and structurally zero or one operands are not covered.',
 [A+'fmt.rs']+OPS+[A+'meta/variable.rs',A+'meta/constant.rs'],
 [('ToExpr::to_expr, PreWrap::to_safe_string',A+'fmt.rs')],observe=['Display, ToExpr::to_expr'])
p('C20','The expression macro builds the expression that was written',
 'For every formula over identifiers, literals, brackets and the supported operators, the expression built by the macro evaluates to the value of the formula as Rust parses it, with ^ as power, and has the corresponding derivative. Integer and floating literals become constants of their value, the square shortcut means the same as the general power, and embedded Rust expressions and method calls keep their meaning.',
 ['programs','inputs'],'All formulas of the supported grammar and all in-domain inputs.',
 'The test file contains a dozen fixed formulas compared structurally.',
 ['aegir_compile/src/lib.rs'],[('ConvertToAegir::fold_expr','aegir_compile/src/lib.rs')],observe=['value and derivative of the generated expression'])
p('C21','Identifiers are distinct names with their own symbol',
 'Two identifiers declared together are equal exactly when they are the same identifier, in both directions and through variables (a variable contains only its own identifier and its derivative is one for that and zero for any other). Every identifier displays as the symbol it was declared with (its own name when none was given), and the predefined Latin and Greek identifiers display as their letters, all distinct.',
 ['programs','configurations'],'All pairs of predefined identifiers and all generated identifier declarations.',
 'Tests compare a few identifiers; the displayed symbol of most predefined identifiers is never looked at.',
 ['aegir_derive/src/ids.rs',A+'lib.rs',A+'meta/variable.rs'],[('ids! expansion','aegir_derive/src/ids.rs'),('predefined ids',A+'lib.rs')],observe=['PartialEq','Display','Variable::contains'])
p('C22','No input makes the library commit undefined behaviour or leak',
 'For every public buffer, lifted-buffer, shape, contraction, zipping, expression and special-function operation, on any shapes (including empty, unit and rectangular ones) and any values (including infinities and NaN), execution performs no undefined behaviour: no out-of-bounds or uninitialised read, no invalid reinterpretation, no double drop, no reaching of code declared unreachable, and no memory leak. Errors surface only as returned errors or ordinary panics.',
 ['inputs','programs','configurations'],'All operations that reach unsafe or native code, over all shapes, representations and values.',
 'A passing test says nothing about undefined behaviour on the path it ran, and tests never run the unsafe shortcuts with rectangular, empty or special-valued operands.',
 [A+'buffers/arrays/contraction_ops.rs',A+'buffers/arrays/zip_ops.rs',A+'buffers/arrays/buffer.rs',A+'buffers/vecs.rs',A+'ops/special.rs'],
 [('ptr.read + mem::forget',A+'buffers/arrays/contraction_ops.rs'),('unwrap_unchecked',A+'buffers/arrays/zip_ops.rs'),('FFI into the special-function library',A+'ops/special.rs')],observe=['Miri','AddressSanitizer + LeakSanitizer over the Rust and native code'])
p('C23','Numerical identities and stability of the scalar functions',
 'The sigmoid is finite, lies between 0 and 1, is monotone, and satisfies s(-x) = 1 - s(x) for every finite input however large; x ln x is 0 at 0; the absolute value, sign and impulse behave as documented at zero, at negative zero and on either side; and the error function is odd, bounded by one and complements to one. Gamma satisfies its recurrence and agrees with its logarithm, and digamma satisfies its recurrence, at every positive input in range.',
 ['inputs'],'All floating-point inputs of both precisions including subnormals, signed zeros, huge magnitudes and infinities where the limit exists.',
 'Tests evaluate each function at a few moderate points.',
 [A+'ops/sigmoid.rs',A+'ops/special.rs',A+'ops/logarithmic.rs',A+'ops/arithmetic/unary.rs'],
 [('sigmoid',A+'ops/sigmoid.rs'),('XLnX',A+'ops/logarithmic.rs'),('Abs, Sign, Dirac',A+'ops/arithmetic/unary.rs'),('FloatSpecial calls',A+'ops/special.rs')],observe=['Function::evaluate of each operator'])
p('C24','One expression can be evaluated from many threads at once',
 'An expression shared by many threads, each with its own context, gives every thread exactly the result that a single-threaded evaluation gives, with values, lifted values, shapes, derivatives and rendered text, and with no data race, in every interleaving. Caches belong to contexts, so concurrent evaluations with separate contexts never see each other\'s cached values.',
 ['schedules','programs','inputs'],'All interleavings of concurrent evaluations of a shared expression over separate contexts.',
 'All tests are single-threaded with respect to one expression.',
 [A+'lib.rs',A+'meta/cached.rs',A+'meta/variable.rs',A+'ops/special.rs']+OPS[:2],
 [('&self evaluation without interior mutability',A+'lib.rs'),('native special functions keep no shared state',A+'ops/special.rs')],observe=['ThreadSanitizer','Miri data-race detector','results per thread'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
