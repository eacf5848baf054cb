#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3 lib/props.py (in /verif)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, note=None, na=None, level="other"):
    P.append(dict(id=id,title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,
                  observe=observe or [],technique=technique,note=note,na=na,level=level))
TODO="check not built yet"
TECH_A="symbolic execution of the real code into exact real/radical SMT terms; z3 decides equality for all values; counter-examples replayed"
NOTE_A="bounded: every real value of the symbolic inputs at the stated sizes/ranks; real arithmetic instead of double rounding; z3 and the node translator are trusted"

TECH_B="symbolic execution of the real code's LLVM IR (path-exhaustive within bounds, z3 decides every branch and assertion); counter-examples replayed natively"
NOTE_B="bounded: all symbolic inputs at the stated sizes; doubles that are symbolic are treated as exact reals; z3, the IR interpreter and the listed library models are trusted; counter-examples are replayed on the compiled code"

prop("C01","Building and rewriting an expression never changes its value",
 "Combining expressions with + - * / and the provided elementary functions, and every rewriting AmpGen performs on the result (constant folding, identity elimination, re-association, simplification, common sub-expression substitution), yields an expression whose value is that mathematical operation applied to the operands' values. This holds for every shape of operand and every value of the parameters for which the operation is defined. Evaluating an expression numerically in place returns that same value, and differentiating it with respect to a parameter gives the expression of its derivative.",
 ["inputs","programs"],"every operand shape in the expression language (constants incl. 0, 1, -1 and complex, parameters, sums, products, quotients, powers, functions, conditionals) nested to the stated depth, all real parameter values",
 "the Expression tests evaluate a handful of fixed expressions at one point",
 ["src/Expression.cpp","src/BinaryExpression.cpp","src/UnaryExpression.cpp","src/Simplify.cpp","src/ASTResolver.cpp","AmpGen/Expression.h"],
 [("operators with folding/identity elimination","src/Expression.cpp operator+,-,*,/ and fcn::"),("numeric evaluation of nodes","src/BinaryExpression.cpp, src/UnaryExpression.cpp"),("normal ordering","src/Simplify.cpp"),("sub-expression extraction","src/ASTResolver.cpp")],
 ["value of Expression::operator()()"],technique=TECH_A,note=NOTE_A)

prop("C02","Generated code computes the value of the expression it was generated from",
 "The source code AmpGen emits for an expression, compiled and called with any parameter array and any event, returns the value of that expression (or of each expression of a list or tensor) at those inputs. Parameter and event slots are read from the position that was assigned to that parameter or event variable, and cached sub-expressions do not alter the result.",
 ["inputs","programs"],"all inputs of each emitted function, over a family of expressions that covers every node type and all emission modes",
 "the test-suite's JIT tests compare a few expressions at a few points, most are not run here",
 ["src/CompiledExpressionBase.cpp","AmpGen/CompiledExpression.h","src/ASTResolver.cpp","src/Expression.cpp","src/UnaryExpression.cpp","src/BinaryExpression.cpp","AmpGen/ArgumentPack.h"],
 [("emission of function body","src/CompiledExpressionBase.cpp"),("printing of nodes","to_string members in src/Expression.cpp, src/UnaryExpression.cpp, src/BinaryExpression.cpp"),("slot assignment","src/ASTResolver.cpp")],
 ["emitted C++ source / compiled function"],technique=TECH_B,note=NOTE_B)

prop("C03","Tensor algebra: contraction, products, inverse and permutation symbols are exact",
 "For tensors with arbitrary entries, a product written with named indices equals the sum over the repeated indices (with the Minkowski metric for contractions of four-vector type), free indices keep the order and position in which they were written, and inverse, conjugate, dot product, identity and Levi-Civita tensors obey their defining identities. Reading an element by its coordinates after any reordering of indices gives the element that was stored under the corresponding original coordinates.",
 ["inputs","configurations"],"all real or complex entries, tensors of rank up to 4 and the listed dimensions, all index patterns up to rank 3 x rank 3",
 "tests multiply two fixed matrices",
 ["src/Tensor.cpp","AmpGen/Tensor.h"],
 [("named-index product","src/Tensor.cpp operator*(TensorProxy,TensorProxy)"),("reordering","src/Tensor.cpp TensorProxy::reorder"),("inverse/determinant","src/Tensor.cpp Tensor::Invert"),("Levi-Civita","src/Tensor.cpp LeviCivita")],
 ["tensor elements"],technique=TECH_A,note=NOTE_A)

prop("C04","Spin projection and orbital angular momentum tensors are true projectors",
 "For every decaying four-momentum the spin-1, spin-2, spin-1/2 and spin-3/2 projection operators are idempotent, transverse to the momentum, and symmetric and traceless as the spin requires. For every pair of four-momenta the orbital tensors of L=1,2 are transverse to the parent momentum, symmetric and traceless, and of degree L in the relative momentum.",
 ["inputs"],"all four-momenta with non-zero invariant mass",
 "no test evaluates these operators",
 ["src/Vertex.cpp","AmpGen/Vertex.h","src/DiracMatrices.cpp"],
 [("spin projectors","src/Vertex.cpp Spin1Projector, Spin2Projector, Spin1hProjector, Spin3hProjector"),("orbital tensors","src/Vertex.cpp Orbital_PWave, Orbital_DWave")],
 ["tensor elements"],technique=TECH_A,note=NOTE_A)

prop("C05","Dirac matrices and external spin states satisfy their defining relations",
 "The gamma matrices satisfy the Clifford algebra with the metric used everywhere else, gamma-5 anticommutes with all of them and squares to one, and the sigma matrices are the commutators. For every four-momentum on its mass shell the external spinors and polarisation vectors of massive particles satisfy the Dirac equation or transversality, are orthonormal and complete, and in the helicity basis are helicity eigenstates, in every basis that can be configured and for momenta along the axes as well; massless vectors have their two transverse helicities.",
 ["inputs","configurations"],"all on-shell momenta, all spin projections, particle and antiparticle, both spin bases",
 "no test checks the states",
 ["src/DiracMatrices.cpp","src/Particle.cpp","src/Vertex.cpp"],
 [("gamma matrices","src/DiracMatrices.cpp"),("external states","src/Particle.cpp Particle::externalSpinTensor")],
 ["tensor elements"],technique=TECH_A,note=NOTE_A)

prop("C06","Every spin vertex is Lorentz covariant and produces a valid spin state",
 "For every registered decay vertex and all momenta and daughter spin states, transforming all inputs by a Lorentz transformation transforms the output by the representation of its spin, the output is transverse to the decaying momentum (symmetric and traceless for rank 2), and is linear in each daughter state.  The output scales with the relative momentum with the power given by the vertex's orbital angular momentum and is a pure wave of it (harmonic in the relative momentum).",
 ["inputs","configurations"],"all momenta, all daughter spin tensors, every registered vertex, boosts and rotations",
 "no test evaluates a vertex",
 ["src/Vertex.cpp","src/FermionVertices.cpp","AmpGen/Vertex.h"],
 [("vertex definitions","src/Vertex.cpp, src/FermionVertices.cpp"),("registry","AmpGen/Vertex.h Factory")],
 ["Vertex::Factory::getSpinFactor"],technique=TECH_A,note=NOTE_A)

prop("C07","Lorentz transformations preserve the metric and act consistently on all representations",
 "Any rotation or boost that AmpGen builds, and any sequence of them, preserves the Minkowski product of any two vectors, its inverse undoes it, and a sequence acts as its elements applied in order. The spinor representation of a transformation rotates the gamma matrices exactly as the vector representation rotates vectors, and the momentum it is constructed to bring to rest or onto an axis is brought there.",
 ["inputs","programs"],"all axes, angles, velocities, vectors; sequences up to the stated length",
 "no test for transformations is run here",
 ["src/Transform.cpp","AmpGen/Transform.h","src/Kinematics.cpp"],
 [("Transform / TransformSequence","src/Transform.cpp"),("wickTransform, helicity frames","src/Wigner.cpp")],
 ["transformed tensors"],technique=TECH_A,note=NOTE_A)

prop("C08","Wigner functions and Clebsch-Gordan coefficients are unitary representations",
 "For all supported spins the small Wigner functions form an orthogonal matrix for every angle, reduce to the identity at zero angle, compose under addition of angles and satisfy the reflection symmetries; the full Wigner functions are unitary. Clebsch-Gordan coefficients are orthonormal, vanish outside the selection rules, and satisfy their exchange symmetry.",
 ["inputs"],"all angles; all spins up to the stated maximum and all projections",
 "no test for these functions",
 ["src/Wigner.cpp","AmpGen/Wigner.h"],
 [("wigner_d, wigner_D, CG","src/Wigner.cpp")],
 ["value of the functions"],technique=TECH_A,note=NOTE_A)

prop("C09","Barrier factors and running widths are correctly normalised",
 "For every orbital angular momentum supported, the Blatt-Weisskopf factors equal the standard ratio of the spherical-Hankel polynomials, are one at the reference momentum, and tend to the threshold behaviour; the energy-dependent width equals the nominal width at the nominal mass, vanishes at threshold with the power 2L+1, and scales with the phase space and the barrier factor.",
 ["inputs","configurations"],"all momenta, masses, radii; L = 0..4; all width models",
 "only one relativistic Breit-Wigner value is tested",
 ["src/Lineshapes.cpp","src/Lineshapes/BW.cpp","src/Lineshapes/CoupledChannel.cpp"],
 [("BlattWeisskopf, BlattWeisskopf_Norm, width, Q2","src/Lineshapes.cpp")],
 ["value of lineshape expressions"],technique=TECH_A,note=NOTE_A)

prop("C10","Lineshapes evaluate their documented formula at every mass",
 "Each registered resonance shape evaluates, for all masses and parameters in its domain, to the formula it documents: the relativistic Breit-Wigner family, Flatte, Gounaris-Sakurai, LASS, K-matrix and the polynomial/exponential forms. Elastic shapes satisfy two-body unitarity, and shapes that share a limit (e.g. a coupled channel with one coupling switched off) agree there.",
 ["inputs","configurations"],"all masses and shape parameters, each registered lineshape covered",
 "one Breit-Wigner value is tested",
 ["src/Lineshapes/BW.cpp","src/Lineshapes/Flatte.cpp","src/Lineshapes/GounarisSakurai.cpp","src/Lineshapes/LASS.cpp","src/Lineshapes/kMatrix.cpp","src/Lineshapes/GenericKmatrix.cpp","src/Lineshapes/kMatrixSimple.cpp","src/Lineshapes/FOCUS.cpp","src/Lineshapes/Poly.cpp"],
 [("lineshape definitions","src/Lineshapes/*.cpp")],
 ["Lineshape::Factory::get"],technique=TECH_A,note=NOTE_A)

prop("C11","Splines interpolate their knots with continuous curvature",
 "A spline built on any set of knot values passes through every knot, is piecewise cubic with continuous first and second derivative, satisfies the end conditions it was given, and reproduces straight lines exactly; outside its range it returns the documented boundary behaviour.",
 ["inputs"],"all knot values, all abscissae, knot counts up to the stated maximum",
 "no test for splines",
 ["src/Spline.cpp","src/Lineshapes/SplineShapes.cpp","AmpGen/Spline.h"],
 [("coefficient solve","src/Spline.cpp SplineTransfer::transfer"),("evaluation","src/Spline.cpp getSpline")],
 ["spline value"],technique=TECH_B,note=NOTE_B)

prop("C12","Quark content obeys flavour algebra and selects exactly the allowed strong decays",
 "Parsing, adding, subtracting and charge-conjugating quark contents agree with flavour-number arithmetic for every content string; conjugation is an involution, and two states are reported as compatible exactly when some pair of their components carry the same net flavour. A two-body decay is treated as strong, so that parity conservation restricts its orbital momenta, exactly when the contents of parent and decay products are compatible; non-resonant states always are, and W and Z bosons never.",
 ["inputs"],"all content strings up to the stated length, all flavour vectors",
 "tests check a few particles",
 ["src/QuarkContent.cpp","AmpGen/QuarkContent.h"],
 [("QuarkContent / QuarkState","src/QuarkContent.cpp")],
 ["comparison and arithmetic results"],technique=TECH_B,note=NOTE_B)

prop("C13","Angular momentum bookkeeping of decays follows the coupling rules",
 "For every combination of parent and daughter spins and parities, the orbital range and the list of allowed spin-orbit couplings of a two-body decay contain exactly the pairs permitted by the triangle rules and, where parity is conserved, by parity. No allowed coupling is missing and no forbidden one is listed.",
 ["inputs","configurations"],"all twice-spin values up to the stated bound and both parities for parent and daughters",
 "a few decays are listed in tests",
 ["src/Particle.cpp","AmpGen/Particle.h"],
 [("orbitalRange, spinOrbitCouplings","src/Particle.cpp")],
 ["returned couplings"],technique=TECH_B,note=NOTE_B)

prop("C14","Identical particles are symmetrised over all distinct arrangements with the right sign",
 "For any decay tree and any assignment of identical final-state particles, the set of arrangements used to symmetrise the amplitude contains each distinguishable arrangement exactly once and only arrangements that exchange identical particles. An arrangement reached by exchanging identical fermions carries the sign of that permutation, and one of bosons carries no sign.",
 ["inputs","programs"],"all permutations of up to the stated number of final-state particles",
 "no test involves more than one pair of identical particles",
 ["src/Particle.cpp","src/Utilities.cpp","AmpGen/Utilities.h"],
 [("identicalDaughterOrderings","src/Particle.cpp"),("minSwaps","AmpGen/Utilities.h")],
 ["orderings and signs"],technique=TECH_B,note=NOTE_B)

prop("C15","Decay descriptors parse into the tree they describe and print back to it",
 "Every well-formed decay descriptor string is parsed into the tree with exactly the written parent, daughters, nesting and options; printing the tree and parsing it again gives an equal tree, and the order in which distinct daughters are written does not change the descriptor. Charge conjugation of a tree is an involution that conjugates every particle and keeps the structure.",
 ["inputs"],"all descriptors generated by the grammar within the stated bounds",
 "a dozen descriptors are tested",
 ["src/Particle.cpp","src/Utilities.cpp"],
 [("Particle(string)","src/Particle.cpp"),("getItems, swapChars","src/Utilities.cpp"),("conj","src/Particle.cpp")],
 ["decayDescriptor(), uniqueString()"],technique=TECH_B,note=NOTE_B)

prop("C16","Text utilities behave as specified on every string",
 "Splitting and re-joining, trimming, replacing, counting, wildcard matching, bracket-aware item extraction and numeric conversion return exactly what their description says for every input string, never read outside the string, and never fail to terminate.",
 ["inputs"],"all strings up to the stated length over the alphabets that the functions distinguish",
 "tests use a few fixed strings",
 ["src/Utilities.cpp","AmpGen/Utilities.h"],
 [("string helpers","src/Utilities.cpp")],
 ["returned strings"],technique=TECH_B,note=NOTE_B)

prop("C17","Parameter sets stay consistent over any history of edits",
 "After any sequence of adding, removing, renaming, looking up and modifying parameters, a parameter set holds exactly the parameters that were added and not removed, each retrievable by its name and by its position, in insertion order and without duplicates. Fixing, freeing, scaling and resetting a parameter change only what they say, and a parameter's value, step and limits read back as written.",
 ["histories","inputs"],"all operation sequences up to the stated length over a symbolic choice of names",
 "no test performs a removal or a duplicate insertion",
 ["src/MinuitParameterSet.cpp","src/MinuitParameter.cpp","AmpGen/MinuitParameterSet.h"],
 [("add/unregister/find/at","src/MinuitParameterSet.cpp")],
 ["size, find, iteration"],technique=TECH_B,note=NOTE_B)

prop("C18","Options lines are read into exactly the settings they state",
 "Every options line is split into its key and values with comments removed and nested braces, line continuation and globals expanded as documented; a named setting or enumeration value is read back as written and an unknown one is rejected.",
 ["inputs"],"all option lines and value tokens up to the stated length",
 "a few fixed option strings are tested",
 ["src/OptionsParser.cpp","AmpGen/NamedParameter.h","src/NamedParameter.cpp","AmpGen/enum.h"],
 [("readStream/setCommandLineOptions","src/OptionsParser.cpp"),("NamedParameter","AmpGen/NamedParameter.h"),("declare_enum parse/print","AmpGen/enum.h")],
 ["values returned by the parser"],technique=TECH_B,note=NOTE_B)

prop("C19","Memory slots of parameters and cached quantities never alias",
 "However many parameters, spline tables and cached sub-expressions an expression uses, and in whatever order they are met, each is assigned its own range of the parameter array, ranges never overlap, the array is as long as its last slot, and refreshing copies every current value to its slot and to no other.",
 ["programs","histories"],"all orders and sizes of allocations up to the stated number",
 "no test has more than one cached quantity",
 ["src/ASTResolver.cpp","src/CacheTransfer.cpp","src/CompiledExpressionBase.cpp","src/Spline.cpp","AmpGen/ASTResolver.h"],
 [("allocation","src/ASTResolver.cpp"),("transfer","src/CacheTransfer.cpp")],
 ["external argument array"],technique=TECH_B,note=NOTE_B)

prop("C20","Kinematic quantities and boosts on events are Lorentz-correct",
 "Invariant masses, dot products, Dalitz variables, helicity angles and phase-space factors computed from an event agree with their definition for every event; boosting and rotating an event preserves all invariant masses and reaches the requested frame.",
 ["inputs"],"all momenta of an event of up to four particles",
 "no kinematics test runs here",
 ["src/Kinematics.cpp","src/Event.cpp","src/Lineshapes.cpp"],
 [("Kinematics functions","src/Kinematics.cpp"),("Event","src/Event.cpp")],
 ["returned doubles"],technique=TECH_B,note=NOTE_B)

prop("C21","Generated phase-space events conserve momentum and lie on the mass shell",
 "For every open decay and every sequence of random numbers the flat phase-space generator (PhaseSpace) makes an event in which the four-momenta of the final-state particles sum to the parent's at rest and every particle has its nominal mass; a decay is accepted exactly if it is kinematically open, and the acceptance weight of a generated configuration lies between zero and one.",
 ["inputs","schedules"],"all random-number sequences; 2-body decays of all masses, 3- and 4-body decays of selected masses",
 "the phase-space test needs ROOT and is not run here",
 ["src/PhaseSpace.cpp"],
 [("setDecay, fill, makeEvent, q","src/PhaseSpace.cpp")],
 ["generated events"],technique=TECH_B,note=NOTE_B)

prop("C22","Numerical integration rules are exact to their stated degree",
 "The cubature and quadrature rules integrate every polynomial up to their degree exactly on every box, the error estimate is non-negative, the axis proposed for splitting is the one along which the integrand departs most from a quadratic (largest fourth difference), and splitting a region conserves the total volume.",
 ["inputs"],"all polynomial coefficients and box limits",
 "no test",
 ["AmpGen/NumericalIntegration.h","AmpGen/simd/integrate_fp.h"],
 [("adaptive cubature","AmpGen/simd/integrate_fp.h")],
 ["integral values"],technique=TECH_B,note=NOTE_B)

prop("C23","Vectorised arithmetic equals scalar arithmetic in every lane",
 "Every vector operation (arithmetic, comparison, selection, gather, store, complex arithmetic) gives in each lane the result of the scalar operation on that lane's operands, independent of the other lanes.",
 ["inputs"],"all lane values",
 "tests cover fixed lane values for a few functions",
 ["AmpGen/simd/avx2d_types.h","AmpGen/Complex.h","AmpGen/simd/utils.h"],
 [("vector types","AmpGen/simd/avx2d_types.h")],
 ["lane values"],technique=TECH_B,note=NOTE_B)

prop("C24","Particle table entries and their antiparticles are mutually consistent",
 "For every table line, the parsed mass, width, charge, spin, parity and quark content are the values written, the antiparticle has opposite charge, conjugate quark content, negated identifier and the same mass, width and spin, and looking a particle up by name, by identifier or via its antiparticle gives the same entry.",
 ["inputs"],"all table lines of the documented format within field bounds",
 "a few masses are tested",
 ["src/ParticleProperties.cpp","src/ParticlePropertiesList.cpp"],
 [("line parser, antiThis","src/ParticleProperties.cpp")],
 ["properties accessors"],technique=TECH_B,note=NOTE_B)

prop("C25","Event storage maps every element to its own place in either layout",
 "An event store keeps, for every event index and field index, exactly the value last written to it, in both the array-of-structures and the structure-of-arrays layout and for block sizes that do not divide the number of events; aligned size is the next multiple of the block.",
 ["inputs","histories"],"all sizes, indices up to the stated bound",
 "no test for the store runs here",
 ["AmpGen/Store.h"],
 [("index mapping","AmpGen/Store.h")],
 ["element read-back"],technique=TECH_B,note=NOTE_B)

prop("C26","Parameter expressions follow arithmetic precedence",
 "A textual expression in the options language evaluates to the value that ordinary operator precedence, associativity and bracketing give it, for every such text and every parameter value.",
 ["inputs"],"all expression strings of the grammar within the stated bounds and all parameter values",
 "the parser test needs ROOT and is not run here",
 ["src/ExpressionParser.cpp","src/MinuitExpression.cpp"],
 [("ExpressionParser","src/ExpressionParser.cpp")],
 ["value of parsed expression"],technique=TECH_B,note=NOTE_B)

prop("C27","Amplitude models are assembled from every decay chain the rules allow, with the product of their couplings",
 "For every set of rules in a parameter set, the amplitudes of an event type are exactly the complete decay chains into that final state that the rules generate, each once, and the coupling of a chain is the product of the couplings of its rules (cartesian, or polar in the chosen angular unit), following later changes of the parameters. Adding the CP conjugate model defines the coupling of each conjugate decay from the original one and changes nothing else.",
 ["inputs","programs"],"all rule sets within the stated bounds and all coupling values",
 "the tests cover one two-step cascade; most need ROOT and are not run here",
 ["src/AmplitudeRules.cpp","src/AddCPConjugate.cpp","src/Particle.cpp"],
 [("expand, getMatchingRules","src/AmplitudeRules.cpp"),("AddCPConjugate","src/AddCPConjugate.cpp")],
 ["list of amplitudes and their couplings"],technique=TECH_B,note=NOTE_B)

prop("C28","The amplitude of a decay tree is its propagators times its spin factor, and is Lorentz invariant",
 "For every decay tree and all momenta, each particle's momentum is the sum of its products' momenta, the amplitude is the product of the lineshapes of every decaying particle with the spin factor built from the vertices of the tree (contracted with the state of a polarised parent), and for spinless initial and final states it is invariant under Lorentz transformations and follows the known angular distribution of the chain. In the canonical formalism the amplitude has the helicity-angle dependence of its partial waves with their relative signs, along cascades, for all directions, and sums over polarisations are isotropic where they must be.",
 ["inputs","programs"],"all momenta of the decay products, for the decay trees listed in the bounds",
 "the tests evaluate a few amplitudes at one or two points; most need ROOT and are not run here",
 ["src/Particle.cpp","src/Wigner.cpp","src/Transform.cpp","src/Vertex.cpp"],
 [("getExpression, propagator, spinTensor, P, Q, massSq","src/Particle.cpp"),("helicityAmplitude, wickTransform, recoupling constants","src/Wigner.cpp")],
 ["value of the amplitude expression"],technique=TECH_A,note=NOTE_A)

def main():
    with open(os.path.join(HERE,"properties.jsonl"),"w") as f:
        for p in P:
            f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],
              "quantifier":{"over":p["over"],"text":p["qtext"]},"why_tests_cant":p["why"],
              "anchors":{"files":p["files"],"mechanism":[{"name":a,"where":b} for a,b in p["mech"]],"observe_at":p["observe"],"hook_needed":None}})+"\n")
    checks=[];na=[]
    for p in P:
        if p["na"]: na.append({"property":p["id"],"reason":p["na"]}); continue
        checks.append({"property":p["id"],"quick_cmd":"python3 lib/check.py %s quick"%p["id"],"thorough_cmd":"python3 lib/check.py %s thorough"%p["id"],
           "technique":p["technique"],"level":p["level"],"level_note":p["note"]})
    with open(os.path.join(HERE,"MANIFEST.json"),"w") as f:
        json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},f,indent=1); f.write("\n")
if __name__=="__main__": main()
