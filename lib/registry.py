EXA="Bounded solver-based checking: the listed AmpGen functions are executed (real code of the current tree) on symbolic operands; the resulting expression trees are translated node by node into exact polynomial/radical terms and z3 decides whether any assignment (all denominators non-zero, radicands positive) makes the two sides of a goal differ. A satisfying assignment is replayed through AmpGen's own numeric evaluation before it is reported."
ASA=["real arithmetic: floating-point literals stand for the rational, root or multiple of pi they round; rounding of double arithmetic is outside the claim",
     "denominators are non-zero and radicands non-negative (real kinematics)","z3 4.8.12 and the node translator (engineA/field.h) are trusted; counter-examples are replayed"]
EXB="Bounded solver-based checking: AmpGen's sources and the harness are lowered to LLVM IR on every run and executed symbolically; inputs are z3 variables, every feasible path within the bounds is explored (branch feasibility, array indices and every assertion are z3 queries), memory accesses are checked against allocations. A satisfying assignment is replayed on an ordinary native build of the same code before it is reported."
ASB=["symbolic doubles are exact reals (no rounding, NaN or infinity); concrete doubles keep their IEEE value","divisors that are symbolic reals are non-zero","library functions listed as models (allocation, memory/string primitives, number parsing and printing, libm) behave as specified","z3 4.8.12 and the IR interpreter (engineB) are trusted; counter-examples are replayed natively"]
COMPONENTS={
"C03":dict(components=[dict(engine="A",harness="c03_tensor.cpp")],explanation=EXA,assumptions=ASA,
  functions=["Tensor constructors, element access, index/coordinate maps, imposeSymmetry, Invert, conjugate, st, + - * /","TensorProxy products/sums/reorder","dot","LeviCivita","Identity","metricSgn"],
  bounds="entries unbounded reals; rank<=3 (4 for reorder/symmetry) with the listed dimensions, all partial index matchings x relative variance; inverse up to 4x4 (thorough 5x5)",
  outside=["tensor self-contraction (unimplemented in AmpGen)","singular leading minors in Invert (no pivoting)"]),
"C04":dict(components=[dict(engine="A",harness="c04_projectors.cpp")],explanation=EXA,assumptions=ASA,
  functions=["Spin1Projector","Spin2Projector","Spin1hProjector","Spin1hbProjector","Spin3hProjector","Spin3hbProjector","Orbital_PWave","Orbital_DWave","gamma_twiddle","slash","Gamma4Vec","Bar","Tensor algebra they use"],
  bounds="all four-momenta with non-zero (positive for the radical) invariant mass; all components",
  outside=["F-wave (not implemented in AmpGen)"]),
"C06":dict(components=[dict(engine="A",harness="c06_vertices.cpp")],explanation=EXA+" Covariance is decided for the six generators of the Lorentz group by running the vertex on dual-number arguments (1+eps*generator, eps^2=0); counter-examples are replayed with the finite transformation.",assumptions=ASA+["rank-2 daughter states are symmetric (AmpGen's own convention)"],
  functions=["every Vertex::*::operator() registered in the factory (enumerated at run time)","Vertex::Factory::getSpinFactor","Spin projectors, orbital tensors, Tensor algebra"],
  bounds="all momenta with positive invariant mass, all complex daughter states, all six generators (three for the radiative vertices, which are frame dependent by construction)",
  outside=["absolute normalisation of a vertex","discrete parity for vertices with more than one coupling of the same L"]),
"C05":dict(components=[dict(engine="A",harness="c05_states.cpp")],explanation=EXA,assumptions=ASA+["conditionals in the state formulae are decided region by region: generic momentum, along +z, along -z, at rest"],
  functions=["Gamma, Sigma, Sigma4, SO3, SU3","Particle::externalSpinTensor","Particle::P","Bar","slash","basisSpinor","basisVector"],
  bounds="all three-momenta in each region with E on the mass shell; masses 1 and 3/7 (states are homogeneous in momentum and mass); spin 0, 1/2, 1; particle and antiparticle; Dirac and Weyl bases",
  outside=["spin >= 3/2 external states (not implemented in AmpGen)","the transition shell |pT^2| <= 1e-6 between the generic and the aligned region"]),
"C07":dict(components=[dict(engine="A",harness="c07_transform.cpp")],explanation=EXA,assumptions=ASA+["rotation axes are unit vectors, |cos|<1, gamma>1"],
  functions=["Transform::operator(), inverse, rotate_spinor, boost_spinor","TransformSequence constructors, push_back, clear, inverse, operator(), buildCache","wickTransform","cosh/sinh/tanh"],
  bounds="all angles, rapidities, unit axes; sequences of length 0..3 (first element with arbitrary axis, further ones along coordinate axes), all rotation/boost patterns; lengths 4..6 along coordinate axes, two patterns each (thorough: all), all three representations",
  outside=["longer sequences"]),
"C08":dict(components=[dict(engine="A",harness="c08_wigner.cpp")],explanation=EXA,assumptions=ASA+["numerical Clebsch-Gordan values are read as the square root of the rational they round"],
  functions=["wigner_d","wigner_D","CG","calculate_recoupling_constants","NormalOrderedExpression (used by wigner_d)","fcn::fpow"],
  bounds="all angles 0<beta<pi (end points as separate goals), spins up to 3 (thorough 4) for single functions, 2 (3) for composition, CG and series up to 2x2 (3x3); arbitrary symbolic amplitudes for the isometry goals",
  outside=["higher spins"]),
"C12":dict(components=[dict(engine="B",harness="c12_quarks.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["QuarkState (parse, + - += -= == !=, antiThis, isVacuum, positionFromName, nameFromPosition)","QuarkContent (parse, + -, == !=, antiThis, size)","Particle::pdgLookup, quarks, daughterQuarks, orbitalRange"],
  bounds="flavour strings up to length 2 over all 12 flavours and two neutral characters (thorough 3), up to length 4 (5) over a reduced alphabet; any byte pair; superposition strings up to length 4 (5) over {d,S,u,+,(,)}; superpositions of one or two components in the algebra; decays with one-flavour daughters (one of them a superposition), ten spin assignments, identifiers -30..30",
  outside=["longer strings"]),
"C16":dict(components=[dict(engine="B",harness="c16_text.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["split (both overloads)","trim, ltrim, rtrim","replaceAll (both overloads)","findAll, vecFindAll, find_next_of","swapChars","stringMatchesWildcard","getItems","editDistance","FNV1a_hash","vectorToString","nCr","lexical_cast","expandGlobals"],
  bounds="strings of length up to 3-6 (thorough up to 7) over the characters each function distinguishes (any byte where stated); patterns up to 3 (4)",
  outside=["longer strings","lexical_cast of the empty string"]),
"C17":dict(components=[dict(engine="B",harness="c17_params.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["MinuitParameterSet add/addOrGet/unregister/rename/find/at/operator[]/operator()/set/resetToInit/setMapping/setFromMinuit/iteration/constructor/destructor", "MinuitParameter constructors, accessors and modifiers"],
  bounds="operation sequences of length up to 4 (thorough 5) over add (three forms), removal, renaming, re-insertion, with symbolic one-letter names; values, steps and limits are arbitrary reals in [-1e6,1e6]",
  outside=["operator()(name) for a name that is not in the set", "loading from files (C18)"]),
"C25":dict(components=[dict(engine="B",harness="c25_store.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["Store (constructors, allocate, resize, operator(), get, find, store, nBlocks, aligned_size, data layout)", "FunctionCache (constructors, allocate, update for scalar and multi-valued functions)", "utils::aligned_size"],
  bounds="scalar, complex and four-lane element types in both layouts; up to 2 blocks + 1 event (thorough 3 blocks + 1), up to 3 fields, symbolic position and value of a write; up to 3 (4) named functions with symbolic names; aligned size for every size up to 2^30",
  outside=["EventListSIMD and the ROOT readers (not built here)", "stores larger than the bound (the index maps contain no size thresholds)"]),
"C23":dict(components=[dict(engine="B",harness="c23_simd.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["AVX2d::real_v (constructors, arithmetic, comparisons, masks, select, abs, sqrt, sign, fmadd, fmod, remainder, to_int, gather, elementary functions)", "Complex<real_v> (constructors, arithmetic incl. mixed operands, conj, norm, abs, sqrt, exp, log)", "utils::gather, at, get, store, sum_elements, all_of, norm"],
  bounds="all real lane values, all four lanes; table offsets and conversions to integer over a list of integral and fractional positions; containers of 1..6 elements",
  outside=["AVX2f, AVX-512 and ARM types (not built here)", "rounding, NaN and infinities", "accuracy of the vector math library (its functions are taken to be the elementary functions)"]),
"C13":dict(components=[dict(engine="B",harness="c13_couplings.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["Particle::orbitalRange", "Particle::spinOrbitCouplings", "Particle::conservesParity"],
  bounds="orbital range: all spins 0..3 (2J<=6; thorough 2J<=12) of parent and daughters symbolic, all parities; couplings: parent spin up to 4, daughters up to 5/2 (thorough 4), parities symbolic",
  outside=["spin combinations with a non-integral total (no orbital momentum exists)"]),
"C14":dict(components=[dict(engine="B",harness="c14_symmetry.cpp",budget_quick=400),dict(engine="A",harness="c14_amplitude.cpp")],explanation=EXB,assumptions=ASB,
  functions=["minSwaps", "Particle::identicalDaughterOrderings", "Particle::setOrdering", "Particle::getFinalStateParticles", "Particle::getExpression (symmetrised amplitude of real decay trees)"],
  bounds="permutations of up to 5 (thorough 6) positions; decay trees of up to 5 final-state particles with a symbolic choice of daughters; amplitudes of three- and four-body decays with two or three identical bosons, two pairs, two identical fermions, all real momenta",
  outside=["absolute normalisation 1/sqrt(n) chosen by AmpGen is taken as its convention", "larger final states"]),
"C01":dict(components=[dict(engine="A",harness="c01_expressions.cpp"),dict(engine="B",harness="c01_evaluate.cpp",budget_quick=400)],explanation=EXA,assumptions=ASA,
  functions=["operator + - * / unary - (Expression, scalars)", "fcn:: (sqrt, exp, log, pow, fpow, trigonometric and inverse functions, atan2, fmod, abs, norm, conj, real, imag, complex_sqrt \u2026)", "Ternary, comparison and logical operators", "NormalOrderedExpression, Simplify", "SubTree / ASTResolver key comparison (to_string used as identity of sub-expressions)", "d() derivative rules", "operator()() of every node (engine B)"],
  bounds="operand shapes: constants (0, 1, -1, i, tiny and nearly-one values), parameters, sums, products, quotients, powers, functions, conditionals, nested pairwise; all real (complex where stated) parameter values; numeric evaluation of every node type for symbolic complex operands",
  outside=["deeper nesting than stated", "rounding of double arithmetic"]),
"C02":dict(components=[dict(engine="G",emitter="c02_emit.cpp",budget_quick=300,per_goal=60,qtimeout=3000)],explanation=EXB,assumptions=ASB,
  functions=["all to_string members of expression nodes", "CompiledExpressionBase::compile/to_stream/addDebug/resolve", "CompiledExpression signatures, _wParams, __py, _DB and _batch entry points", "ASTResolver parameter, event-variable, array and sub-expression resolution", "AVX2d real_v/complex_v operations used by the generated code"],
  bounds=["about 600 emitted functions: every node type below every operator on either side, 320 trees of three arithmetic operators, every unary function over every node type, chains and ladders of sub-expressions, sub-expressions that differ in one constant, all parameter kinds, all return types and entry points, arrays, AVX2d code, four complete decay amplitudes", "each function is compared with an independent rendering of the same tree for ALL real values of all parameters and event variables (floating point read as exact real arithmetic; constants at their exact binary value); transcendental functions are uninterpreted and equal on equal arguments"],
  outside=["trees outside the emitted family", "return-through-pointer together with includeParameters", "rounding of the compiled code"]),
"C09":dict(components=[dict(engine="A",harness="c09_barriers.cpp")],explanation=EXA,assumptions=ASA,
  functions=["BlattWeisskopf", "BlattWeisskopf_Norm", "Q2", "width", "BL", "kFactor", "lineshape FormFactor (all modifiers)", "phaseSpace", "CoupledChannel blatt_weisskopf_sq", "analytic phase space (CM)"],
  bounds="L=0..4; squared momenta, masses, widths, radii and s symbolic reals, s and the mass above and below threshold (one goal per region); coupled-channel phase space for four decays, L=0..3",
  outside=["floating-point rounding", "L>4"]),
"C10":dict(components=[dict(engine="A",harness="c10_lineshapes.cpp")],explanation=EXA,assumptions=ASA,
  functions=["lineshapes BW, SBW, NonRelBW, Photon, None, ExpFF, Gaussian, Poly, GounarisSakurai, LASS, GLASS, Flatte, CoupledChannel, Isotensor, FOCUS, PALANO, kMatrix, kMatrixSimple, GenericKmatrix, Bugg, DecaySpline, GSpline, FormFactorSpline, MIPWA, InelasticSpline, EtaDalitz, PolyNR", "getSpline", "constructKMatrix", "getPropagator", "poleConfig", "phsp_twoBody / phsp_FOCUS / phsp_fourPi", "gFromGamma", "pol", "Tensor::Invert"],
  bounds="s and lineshape parameters symbolic reals, one goal per threshold region; BW L=0 with two symbolic masses, L=1..4 with equal masses and symbolic break-up momenta; LASS/GLASS at one pair of masses and pole position; K matrices up to 2 poles and 3 channels, the isoscalar K matrix with two coupled channels of one pole at a time at three values of s; spline shapes with every spline an arbitrary quadratic; PolyNR up to degree 2; EtaDalitz for three orders of the daughters",
  outside=["evaluation of the splines themselves (C11)", "three-body width tables", "floating-point rounding", "isoscalar K matrix with more than one simultaneously coupled pole"]),
"C11":dict(components=[dict(engine="G",emitter="c11_emit.cpp",sources=None,budget_quick=300,per_goal=60,qtimeout=3000)],explanation=EXB,assumptions=ASB,
  functions=["code generated by CompiledExpression for Spline (Spline::eval, getSpline, ASTResolver::resolve(Spline))", "SplineTransfer (constructor, set, isConfigured, transfer)", "MIPWA, InelasticSpline lineshapes", "AddressSpace / external cache layout of splines"],
  bounds="3-6 knots (thorough 8) on one grid each with spacing exactly representable in binary; all knot values in [-10,10], all abscissae between knots, below and above the range; tolerance 1e-7 where the double-precision inverse of the tridiagonal matrix enters",
  outside=["GSL (replaced by an elimination stand-in inside the engine; replay uses the real one)", "rounding of fmod at abscissae within one ulp of a knot", "end-point derivative options (AmpGen only has natural ends)"]),
"C26":dict(components=[dict(engine="B",harness="c26_parser.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["ExpressionParser (constructor, parse from text and tokens, parseTokens, processUnaryOperators, processBinaryOperators, processEndPoint)", "MinuitExpression, MinuitParameterLink evaluation", "MinuitParameterSet::tryAlias", "evaluation of the resulting expression tree"],
  bounds="operator chains of up to 4 operands over + - * / ^ < > &&, one bracket pair anywhere and selected nested brackets, functions in front of any operand or bracket (also chained), atan2 and Ternary, number literals up to 3 characters, two-letter names, cartesian/polar coupling pairs; all real parameter values",
  outside=["chains of two ^ or of two comparisons (no documented associativity)", "malformed texts (missing operands, unary minus in front of a name)", "Secret() (needs ROOT's random generator)", "tensor literals"]),
"C18":dict(components=[dict(engine="B",harness="c18_options.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["OptionsParser (makeParsedStrings, addArg, import, setCommandLineArgs, getInputOrdered, find, iteration, ignoreThisLine)", "processFile", "NamedParameter<int,unsigned,size_t,double,bool,string,enum>", "enum parse/to_string (Flag, coordinateType, angType, Units, spinFormalism, spinBasis)", "MinuitParameterSet::loadFromStream, tryParameter, tryAlias"],
  bounds="lines up to 6 characters (thorough 7) over the characters the parser distinguishes; histories of up to 3 (4) settings with symbolic keys; files of up to 2 (3) lines or 5 (6) arbitrary characters; command lines of up to 3 options; enumeration words up to 3 (4) characters and every one-character change of a name; parameter lines with one symbolic number at any position",
  outside=["unbalanced quotes", "Import / ParticleProperties keywords (side effects on files)", "file system access itself (stand-in with the getline semantics of the standard)"]),
"C24":dict(components=[dict(engine="B",harness="c24_table.cpp",budget_quick=300)],explanation=EXB,assumptions=ASB,
  functions="ParticleProperties (line constructor, anti, antiThis, name, J, spinName, polarisations, comparisons, setProperty), QuarkContent/QuarkState, ParticlePropertiesList (readFile, readLatexLabels, makeMappings, find, get, makeAlias, addParticle), OptionsParser keywords ParticleProperties, ParticlePropertiesList::Alias, ParticlePropertiesList::Import",
  bounds="18-field lines with one group of fields symbolic at a time: numbers of 2 digits from {2,5} with optional exponent/decimals, every parity/charge text, spins 0..3 and 1/2..9/2, identifiers of 3 digits from {1,2}, names of up to 4 characters, quark texts of up to 3 characters and two-term mixtures; tables of up to 2 lines (3 in the thorough tier); aliases and user particles of names up to 3 characters",
  outside=["the contents of the shipped tables (data)", "look-up by identifier 0", "spin-3/2 polarisation lists (not implemented in the code)", "numeric texts other than the listed ones"]),
"C15":dict(components=[dict(engine="B",harness="c15_descriptors.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions="Particle (all constructors, parseModifier, pdgLookup, modifierString, makeUniqueString, decayDescriptor, conj, conjThis, sortDaughters, operator<, getFinalStateParticles, setOrdering, quasiStableTree, matches, expand, clone, isValidDecayDescriptor, attribute), getItems, split, swapChars, ParticlePropertiesList::find",
  bounds="trees of up to 4 levels and 4 final-state particles over an 11-entry table (spins 0,1,2, charged, neutral, own antiparticle, no identifier, quasi-particle) with symbolic letters and signs; orbital letters S..I with spin numbers 1-3 or letters, 6 lineshapes, 3 flags, attributes of up to 3 characters in any order; final-state lists of 3",
  outside=["descriptors with unknown particle names (the constructor needs known names)", "decays that no orbital state allows", "blanks inside descriptors"]),
"C27":dict(components=[dict(engine="B",harness="c27_rules.cpp",budget_quick=300)],explanation=EXB,assumptions=ASB,
  functions="Coupling, TotalCoupling, AmplitudeRules (constructor, rulesForDecay, hasDecay, expand, getMatchingRules, add_rule), AddCPConjugate, Particle(descriptor, final state), EventType, MinuitExpression, MinuitParameterLink",
  bounds="rule sets of 3 to 6 rules with cascades of up to three steps over the 11-entry table, 2-5 particle final states, symbolic names; products of up to three couplings with symbolic real values; prefixes of up to 2 characters",
  outside=["recursive rules", "TotalCoupling::isFixed of expression couplings"]),
"C19":dict(components=[dict(engine="B",harness="c19_slots.cpp",budget_quick=400)],explanation=EXB,assumptions=ASB,
  functions=["AmpGen::ASTResolver::{addCacheFunction,resolve<Parameter|SubTree|Spline|MinuitParameterLink|LambdaExpression>,addResolvedParameter,resolvedParameter,cacheFunctions,getOrderedSubExpressions,clear,nParams}", "AmpGen::{CacheTransfer,ParameterTransfer,LambdaTransfer,SplineTransfer}::{ctor,transfer,size,address,set}", "AmpGen::CompiledExpressionBase::{resolve,prepare}", "AmpGen::CompiledExpression::{setExternal,resizeExternalCache,hasExternalsChanged,resetExternals}", "AmpGen::Spline::{ctor,operator(),eval,resolve}"],
  bounds={"allocations": "4 (thorough 6) with symbolic names over 4 letters and symbolic sizes 0..64; 5 (thorough 7) with symbolic sizes 0..1000", "expressions": "every sequence of 3 (thorough 4) leaves out of 11: two fit parameters, two links to them, two unknown parameters with defaults, two functions, splines of 3 and 4 knots, an event variable; with and without a common sub-expression; values symbolic reals; one refresh after a change of values", "spline tables": "3,4,5,6,8,10 (thorough 11) knots with symbolic values in [-100,100]; joins checked to 1e-8"},
  outside=["a name used both for a parameter and for a spline; splines without a parameter set or with missing knots", "CUDA code generation", "GSL's matrix inversion is modelled (exact tridiagonal elimination), the real library is used in replays"]),
"C20":dict(components=[dict(engine="B",harness="c20_kinematics.cpp",budget_quick=300)],explanation=EXB,assumptions=ASB,
  functions=["AmpGen::Event::{ctor,set,s,swap,reorder,extendEvent,weights}", "AmpGen::{boost,rotate,rotateBasis,dotProduct,pFromEvent,acoplanarity,phi,PHI}", "AmpGen::MomentumTransfer::{operator(),Q2}", "AmpGen::HelicityCosine::operator()"],
  bounds={"events": "one to four particles with symbolic real components", "boosts": "any non-zero direction, any speed below one", "rotations": "any angle; linearity, energy and the axis component for any direction, orthogonality and angle for the coordinate axes of any length and six directions of rational length", "plane angles": "planes through the z axis with symbolic transverse momenta, six angles"},
  outside=["Kinematics.cpp needs ROOT: its vectors are stand-ins in /verif/stubs with ROOT's documented formulas", "the phase-space factors and Dalitz kinematics of lineshapes are C05-C09"]),
"C22":dict(components=[dict(engine="B",harness="c22_integrate.cpp",budget_quick=300)],explanation=EXB,assumptions=ASB,
  functions=["AmpGen::integrate_fp", "AmpGen::integrate_fp_scalar", "AmpGen::integrate<1|2|3>", "AmpGen::integrate_1d"],
  bounds={"polynomials": "all coefficients in [-1,1], total degree 7 in 2 and 3 dimensions, 5 (thorough 7) in 4 dimensions; one term of each shape up to degree 7 in 5 to 8 dimensions; degree 5 for the error estimate; degree 4 for the axis to split (the coefficients of the fourth powers differ by a factor of two)", "boxes": "three fixed boxes per dimension", "adaptive": "2 and 3 dimensions, symbolic coefficients of terms 1,x,y,xy and of a small sixth-order term that forces subdivision", "tolerance": "1e-7 for one rule, 1e-6 for the adaptive sum, 1e-4 in one dimension (the stated accuracy of the integrator)"},
  outside=["GSL's one-dimensional integrators are modelled by a Gauss-Legendre rule exact to degree 19; the real library is used in replays"]),
"C21":dict(components=[dict(engine="B",harness="c21_phasespace.cpp",budget_quick=300)],explanation=EXB,assumptions=ASB,
  functions=["AmpGen::PhaseSpace::{PhaseSpace,setDecay,setRandom,fill,makeEvent,q,rndm}", "AmpGen::Event"],
  bounds={"random numbers": "all reals in [0,1] (sorted draws of the intermediate masses, angles); the acceptance draw is 0", "decays": "2-body: all masses; 3-body massless: all random numbers; 3-body massive and 4-body: selected masses and intermediate masses, all angles", "theorems assumed": "sin^2+cos^2=1 for the angles drawn"},
  outside=["TreePhaseSpace, RecursivePhaseSpace, DecayChainStack", "rejection loop beyond the first accepted draw", "three and more bodies with symbolic masses"]),
"C28":dict(components=[dict(engine="A",harness="c28_amplitude.cpp")],explanation=EXA,assumptions=ASA,
  functions=["Particle::getExpression", "Particle::propagator", "Particle::spinTensor", "Particle::P, Q, massSq", "Vertex::Factory::getSpinFactor (vertices of the trees)", "helicityAmplitude", "wickTransform, angCoordinates, wigner_D, recoupling constants", "TransformSequence, Transform"],
  bounds={"trees": "scalar parent to S, V, T plus a scalar; V V in S, P and D wave; axial vector cascades in S and D wave; single-daughter and three-body steps; spin-1/2 and spin-1 parents with one polarisation each", "momenta": "all real energies and momenta (not only on the mass shell); for rank-2 and D-wave trees one particle at a time with the others fixed", "Lorentz transformations": "the six generators (quick: three of them, and for rank-2 and D-wave trees one particle in three)", "canonical formalism": "parent at rest; directions of the resonances fixed to 3-5 frames (oblique, along the axes both ways, transverse), decay products of one resonance at a time with any momentum; spin-1/2: proton mass 84, two frames, implicit and explicit total spin"},
  outside=["lineshape formulas (C10)", "vertices of other spins (C06)", "moving parent in the canonical formalism", "photons and neutrinos in the canonical formalism"]),
}
