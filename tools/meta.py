"""Property metadata: the source of properties.jsonl and MANIFEST.json."""
P = {}


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                 technique=technique, note=note, observe=observe or [], state=state or [])


prop('W01', 'Named registries agree with the set of live definitions after any history',
     'After any sequence of creating, redefining, loading, deleting and clearing EFTs, bases, basis translators and EFT matchers, looking a name up returns the most recently created live definition with that name, a deleted or cleared name is unknown, and the listing contains exactly the live names. '
     'Operations on one kind of definition never change what is registered for another kind, and clearing a kind removes exactly its own definitions.',
     ['histories'], 'every sequence of registry operations',
     'Unit tests register a couple of names once, in one order, and never delete or redefine in combination.',
     ['wilson/wcxf/classes.py'], [('per-class name table kept by the metaclass, deletion and clearing through the class', 'wilson/wcxf/classes.py: NamedInstanceMetaclass, NamedInstanceClass')],
     'explicit enumeration of all operation sequences to a depth against a dictionary model',
     'Exhaustive for sequences of the stated depth over 2 EFTs/2 bases; every step compares the whole registry with the model.')

prop('W02', 'A child basis offers its own sectors plus inherited ones it does not redefine',
     'A basis that names a parent (transitively) offers all sectors of the parent, except that a sector the child defines itself replaces the inherited sector of that name as a whole, and the coefficient listing is the flattening of the resulting sectors. '
     'Building a child never alters the parent, and the parent or child may be constructed, loaded from a file or looked up with the same result.',
     ['inputs', 'histories'], 'every family of parent/child/grandchild bases and every order of registration and lookup',
     'Tests cover one parent/child pair from data files.',
     ['wilson/wcxf/classes.py'], [('merging of inherited sectors', 'wilson/wcxf/classes.py: Basis')],
     'enumeration of all small basis families against a sector-override model',
     'Exhaustive over the stated small families and over all shipped bases.')

prop('W03', 'Validation accepts exactly the well-formed bases and coefficient files',
     'Validating a coefficient file succeeds exactly if its EFT and basis are known and every coefficient belongs to that basis; otherwise it reports an error naming the problem. '
     'Validating a basis succeeds exactly if its EFT is known, its sectors are sectors of the EFT, no coefficient occurs twice and every LaTeX name compiles if LaTeX is available; the error names the problem, and validating leaves no files behind.',
     ['inputs'], 'every small basis and coefficient file, valid or not',
     'Tests validate a handful of shipped files and two broken ones.',
     ['wilson/wcxf/classes.py'], [('validate methods', 'wilson/wcxf/classes.py: Basis.validate, WC.validate')],
     'enumeration of all small valid and invalid definitions against a set-theoretic oracle',
     'Exhaustive over the stated alphabets; LaTeX is replaced by a stand-in because none is installed.')

prop('W04', 'JSON and YAML serialisation round-trips without loss',
     'Writing an EFT, basis or coefficient file as JSON or YAML and reading it back, in either format and through any chain of conversions, string or stream, yields the same content: names, nesting, metadata and every number bit for bit. '
     'A stream that is neither valid JSON nor YAML, or lacks required fields, is rejected instead of being read as something else.',
     ['inputs', 'histories'], 'every coefficient name, value, metadata and chain of conversions',
     'Tests convert two example files once.',
     ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py'], [('load/dump, duplicate of number formats', 'wilson/wcxf/classes.py: WCxf.load/dump, converters/yamljson.py')],
     'enumeration of all value/name/route combinations and conversion sequences to a depth',
     'Exhaustive over an alphabet of awkward scalars and names; denotational equality of numbers.')

prop('W05', 'A coefficient value means the same number in every view',
     'However a coefficient is written (number, numeric text, {Re, Im} with either part missing), every view of the file (plain dictionary, raw values, table, serialised form) denotes the same complex number, independent of which views were consulted before and in which order. '
     'Reading a view never changes the stored values.',
     ['inputs', 'histories'], 'every spelling of a value and every order of consulting the views',
     'Tests read one view of a few values.',
     ['wilson/wcxf/classes.py'], [('cached dict/df views', 'wilson/wcxf/classes.py: WC.dict, WC.df, WC.dict2values')],
     'enumeration of all spellings and all access orders against complex arithmetic',
     'Exhaustive over 14 reals incl. extremes and all permutations of view accesses.')

prop('W11', 'Printed representations state exactly the content',
     'Printing or displaying (text, Markdown, HTML) a coefficient file, a basis or a Wilson instance shows its EFT, basis and scale and lists every coefficient exactly once, with its complex value or, for a basis, with its sector, operator and type (real or complex), whatever was viewed before. '
     'Printing changes nothing. (The HTML table of more than 60 coefficients is abbreviated in the middle, as pandas does.)',
     ['inputs', 'histories'], 'every coefficient, value, basis and order of views',
     'Tests call one representation without looking at the result.',
     ['wilson/wcxf/classes.py', 'wilson/classes.py'], [('textual representations', 'wilson/wcxf/classes.py: WC._repr_markdown_, _repr_html_, Basis.__str__; wilson/classes.py: Wilson._repr_html_')],
     'enumeration of coefficient files, bases and view orders; the printed tables are parsed back and compared with the content',
     'Exhaustive over the stated values, all small bases and all shipped bases; tables wider than the display limits of pandas are not covered for HTML.')

prop('W06', 'Basis translation and EFT matching use the right registered rule',
     'Translating to another basis or matching to another EFT applies exactly the registered rule for that source, target and EFT, passing on the scale, parameters and sectors of the request; if none is registered an error is raised and nothing else is tried. '
     'The result carries the target EFT and basis and the same scale, contains every non-zero output coefficient unchanged, and the source is left untouched; translating to the own basis returns the same coefficients.',
     ['configurations', 'inputs'], 'every set of registered rules, request and rule output',
     'Tests exercise the few shipped rules.',
     ['wilson/wcxf/classes.py'], [('translate and match methods', 'wilson/wcxf/classes.py: WC.translate, WC.match, Translator, Matcher')],
     'enumeration of all subsets of registered rules x all requests against a lookup model',
     'Exhaustive over 6 rules, 3 sources, 8 requests and 13 kinds of output value.')

prop('W07', 'Every EOS parameter is exported as Standard Model plus new physics value',
     'The exported EOS parameter file states for every coefficient the sum of the Standard Model value and the new physics value, for real and imaginary parts separately and for all direct, lepton-specific and charged-current spellings, and is otherwise identical to the Standard Model defaults. '
     'Parameters that are not affected are not altered, and all parameter files of a given directory are found regardless of which files are present.',
     ['inputs', 'configurations'], 'every assignment of coefficient values and every set of parameter files',
     'The three existing tests check two coefficients.',
     ['wilson/wcxf/converters/eos.py'], [('conversion and default parameter lookup', 'wilson/wcxf/converters/eos.py')],
     'enumeration of all value assignments per parameter against the addition rule',
     'Exhaustive over 7 values per parameter and every key of the EOS basis.')

prop('W08', 'The command line tools do exactly what the library does',
     'Each command line tool produces, for every combination of input route, output route, format option and input file, the same output as the corresponding library call; if the library call fails the tool exits with an error. '
     'A tool writes nothing but the requested output.',
     ['configurations', 'inputs'], 'every combination of options, routes and files of the five tools',
     'CLI tests run one command each and need installed executables.',
     ['wilson/wcxf/cli.py'], [('argument parsing and stream selection', 'wilson/wcxf/cli.py')],
     'enumeration of the full option product, each run in its own process image, against the library',
     'Exhaustive over the stated option product.')

prop('W09', 'DsixTools files: export and import are inverse on every coefficient',
     'Exporting SMEFT coefficients to the DsixTools format and importing the result returns the same coefficients at the same scale, for every real degree of freedom of the Warsaw basis. '
     'Importing does not depend on the order of blocks or on how the content is split over files.',
     ['inputs'], 'every coefficient file in the Warsaw basis',
     'Tests import a single example file.',
     ['wilson/wcxf/converters/dsixtools.py', 'wilson/wcxf/converters/dsixtools_definitions.py'], [('block tables and matrix codec', 'wilson/wcxf/converters/dsixtools.py, dsixtools_definitions.py')],
     'exhaustive unit-vector exploration of the round trip plus dense superpositions',
     'Every degree of freedom as a unit file through text; dense files at three scales.')

prop('W10', 'SMEFTsim export puts every coefficient in its own card entries',
     'A SMEFTsim parameter card contains, for every coefficient of the given Warsaw mass basis file, its value times the squared cutoff scale at the card entries belonging to that coefficient (real and imaginary part, correct sign, flavour-universal sums where the model has them), and zero for all other coefficients. '
     'The card is complete and readable for every model set, input scheme and cutoff, and every entry is a number.',
     ['inputs', 'configurations'], 'every coefficient value, model, input scheme and cutoff',
     'Tests check that a card is produced.',
     ['wilson/wcxf/converters/smeftsim.py', 'wilson/wcxf/converters/SMEFTsim_param_card_elements.py'], [('card templates and entry formatting', 'wilson/wcxf/converters/smeftsim.py')],
     'exhaustive unit-vector exploration of the export against the block/label model',
     'Every coefficient x several values x both models; card layout compared with a frozen table.')

prop('Q01', 'QCD coupling and running masses: values, domain and identities',
     'The strong coupling and the running quark masses at every scale, flavour number (3, 4, 5 or 6) and loop order equal the RunDec evolution with decoupling at the documented thresholds, satisfy the renormalisation group equation, and reduce to the input at the input scale. '
     'Flavour numbers or requests outside the supported domain raise an error instead of returning a number.',
     ['inputs'], 'every scale, flavour number, coupling, mass and loop order',
     'The existing tests compare about twenty numbers.',
     ['wilson/util/qcd.py'], [('threshold composition of RunDec primitives', 'wilson/util/qcd.py')],
     'enumeration of the full argument grid against an independent composition of the primitives',
     'Exhaustive on a grid that contains every threshold, both float neighbours of special points and the invalid domain; RunDec trusted.')

prop('Q02', 'QCD results do not depend on earlier calls',
     'The value (or error) returned for the strong coupling or a running mass depends only on the arguments: not on which other scales, flavours or loop orders were requested before, on how the arguments were spelled, or on how many results are memoised.',
     ['histories'], 'every sequence of calls',
     'Tests call each function in one fixed order.',
     ['wilson/util/qcd.py'], [('memoisation and the shared RunDec object', 'wilson/util/qcd.py')],
     'all call sequences to a depth in a fresh process each, against single-call results',
     'Exhaustive sequences to depth 3 (thorough 4) including failing calls and cache overflow.')

prop('U01', 'Non-redundant coefficients and symmetric coefficient arrays are equivalent',
     'Expanding the independent coefficients of an operator into the full flavour array gives an array with exactly the symmetries of the operator (permutation and hermiticity with complex conjugation), and reducing that array again returns the independent coefficients, for every SMEFT and low-energy operator and every index combination. '
     'Reducing any array, symmetric or not, and the helper conversions of dictionaries, vectors and index-named coefficients follow the same convention, so that no step changes the physical content or weight of a coefficient.',
     ['inputs'], 'every coefficient, index combination and value',
     'Tests check a few operators on random input.',
     ['wilson/util/common.py', 'wilson/util/smeft_warsaw.py', 'wilson/util/wet_jms.py', 'wilson/util/__init__.py'], [('symmetrisation by operator class, scaling factors, redundant index tables', 'wilson/util/common.py')],
     'exhaustive unit-vector exploration of the conversion maps against the permutation-group model',
     'Every coefficient x 3 directions plus dense superpositions; linear maps are thereby determined completely.')

prop('U02', 'Flavour rotations act as the symmetry group of the operators',
     'Rotating the flavour basis of SMEFT coefficients applies to each operator index the unitary matrix of its field (or the complex conjugate, as its chirality demands), composes as a group action, is undone by the inverse rotation and preserves hermiticity and symmetries. '
     'Rotating never changes flavourless coefficients or the input.',
     ['inputs'], 'every coefficient and every set of unitary rotations',
     'Tests only check trivial rotations indirectly.',
     ['wilson/util/smeft_warsaw.py', 'wilson/util/common.py'], [('index-wise contraction with the rotation matrices', 'wilson/util/smeft_warsaw.py: flavor_rotation')],
     'enumeration of all operators x a generating set of rotations against a field-content model',
     'Every operator and every single-field rotation, plus combined rotations.')

prop('S01', 'SMEFT beta functions',
     'The scale derivatives of all SMEFT coefficients and Standard Model parameters are the one-loop Warsaw-basis renormalisation group functions: at every point they are linear in the coefficients, covariant under the full flavour group, CP-covariant, homogeneous in the reference scale, keep hermitian operators hermitian and real parameters real, and do not mix baryon/lepton number sectors. '
     'Their numerical value, for every coefficient as source and every coefficient as target, is that of the published anomalous dimensions; evaluation neither changes its input nor depends on earlier evaluations.',
     ['inputs', 'histories'], 'every set of coefficients and Standard Model parameters',
     'One test compares a single numerical point, with all coefficients at once.',
     ['wilson/run/smeft/beta.py'], [('beta function with cached contractions', 'wilson/run/smeft/beta.py: beta, beta_array, my_einsum')],
     'exhaustive exploration of every input direction against a frozen output fingerprint, plus structural identities',
     'Every coefficient direction as source; all targets through a complex fingerprint frozen on the pinned tree; identities are independent of it. Known finding: quqd1 -> dphi term.')

prop('S02', 'SMEFT running solves the RG equations with consistent SM parameters',
     'For every set of Warsaw coefficients, scales and accuracy, SMEFT.run returns the solution of the one-loop RG equations (or its leading logarithm), in the flavour basis documented, with Standard Model parameters that reproduce the measured masses, mixings and couplings in the presence of the coefficients. '
     'Running to the input scale changes nothing, running in steps agrees with running at once, the continuous solution agrees with the discrete one everywhere in its range, sectors that do not mix stay zero, and an instance can be used repeatedly in any order.',
     ['inputs', 'histories', 'configurations'], 'every coefficient set, pair of scales, accuracy and order of calls',
     'Tests compare single numbers with DsixTools at one point.',
     ['wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/smpar.py'],
     [('SMEFT class: evolution and rotation to the default basis', 'wilson/run/smeft/classes.py: SMEFT.run, _rgevolve, _run_sm_scale_in, get_smpar, run_continuous'), ('ODE and leading-log solution', 'wilson/run/smeft/rge.py')],
     'exhaustive exploration of all coefficient blocks against an independent Runge-Kutta/leading-log model; all call sequences to a depth on one instance',
     'Own integrator, own SM matching; beta functions certified by S01. Thorough: each direction alone in leading log.')

prop('S03', 'SM parameter determination inverts extraction in the presence of new physics',
     'The Standard Model parameters determined from measured inputs in the presence of dimension-six coefficients reproduce these inputs when extracted again, for every sign and size of the coefficients entering, in both flavour bases; they satisfy the defining relations of the Higgs potential and gauge boson masses. '
     'Points without a solution are rejected with ValueError and never answered with wrong numbers.',
     ['inputs'], 'every sign and size of the coefficients entering',
     'Tests check the SM limit and one random point.',
     ['wilson/run/smeft/smpar.py'], [('inversion of the SM relations', 'wilson/run/smeft/smpar.py: smeftpar, smpar, m2Lambda_to_vMh2, vMh2_to_m2Lambda, get_gpbar')],
     'enumeration of all sign patterns of the coefficients and grids of the potential, checked against the defining relations',
     'All sign patterns of 7 bosonic coefficients, all Yukawa-like entries, a 9x9x9x7 grid of potentials incl. unsolvable ones.')

_M = ['wilson/match/smeft_tree.py', 'wilson/match/smeft_loop.py', 'wilson/match/smeft.py', 'wilson/match/wet.py', 'wilson/match/__init__.py']
prop('M01', 'Tree-level matching of SMEFT onto WET',
     'At tree level the WET coefficients generated by any SMEFT coefficient are those obtained by integrating out W, Z, Higgs and top: contact terms rotated by the CKM matrix, W and Z exchange with the modified couplings, and shifted input parameters where documented, for every coefficient and every value of the input parameters. '
     'Matching respects lepton relabelling, CP, hermiticity and dimensional scaling.',
     ['inputs', 'configurations'], 'every SMEFT coefficient, WET coefficient and parameter point',
     'Tests check a few entries at the default parameters.',
     _M[:1] + _M[2:3], [('tree-level matching conditions', 'wilson/match/smeft_tree.py: match_all_array')],
     'exhaustive exploration of every real input direction against an independent derivation of the matching',
     'All 2499 real directions x all WET coefficients; response linearised at 1e-12.')

prop('M02', 'One-loop matching of SMEFT onto WET',
     'With loop_order=1 the WET coefficients are those of the published one-loop matching, for every SMEFT coefficient as source, with the documented logarithmic dependence on the matching scale. '
     'The result is real-linear in small coefficients, respects CP, lepton relabelling, hermiticity and the conservation of baryon and lepton number, and contains the tree-level result.',
     ['inputs', 'configurations'], 'every SMEFT coefficient and matching scale',
     'Tests check a few entries at one scale.',
     _M[1:3], [('one-loop matching conditions', 'wilson/match/smeft_loop.py: match_all_array')],
     'exhaustive exploration of all input blocks against a frozen output fingerprint, plus structural identities',
     'All 1635 coefficients in blocks of 12 at two scales; fingerprints frozen on the pinned tree.')

prop('M03', 'Direct and stepwise matching agree; thresholds keep exactly what exists below',
     'Every matcher between two bases agrees with the composition of elementary translations and the JMS matching, with the same parameters and loop order. '
     'Crossing the b, c or tau threshold keeps every coefficient whose fields all exist below with its value, drops all others, commutes with basis translations, and keeps the scale.',
     ['inputs', 'configurations'], 'every matcher, coefficient and parameter set',
     'Tests touch single coefficients in single matchers.',
     _M[2:], [('registered matchers', 'wilson/match/__init__.py'), ('threshold matching', 'wilson/match/wet.py')],
     'enumeration of every matcher x every coefficient; composition of certified steps as oracle',
     'Every direct matcher and threshold x every coefficient.')

prop('M04', 'Predictions do not depend on the matching scale at one-loop order',
     'The SMEFT evolution, the one-loop matching onto WET, the tree-level matching and the WET evolution are consistent with each other: for every SMEFT coefficient, the explicit dependence of the one-loop matching on the matching scale cancels, in every WET coefficient, against the running of the SMEFT coefficients and SM parameters above and of the WET coefficients below. '
     'Moving the matching scale therefore changes results only at two-loop order. This holds for every CKM matrix and value of the input parameters.',
     ['inputs', 'configurations'], 'every SMEFT coefficient, WET coefficient and parameter point',
     'Each ingredient is tested alone, on few entries; their consistency is not tested at all.',
     _M[:3] + ['wilson/run/smeft/beta.py', 'wilson/run/wet/adm.py', 'wilson/run/wet/rge.py'], [('one-loop matching conditions', 'wilson/match/smeft_loop.py'), ('SMEFT beta functions', 'wilson/run/smeft/beta.py'), ('WET anomalous dimensions', 'wilson/run/wet/adm.py')],
     'exhaustive exploration of all SMEFT coefficients, with the renormalisation group equation of the matched coefficients as oracle',
     'All 1635 coefficients alone and in blocks at a second parameter point; every WET coefficient of each result; no frozen numbers.')

_T = 'wilson/translate/wet.py'
prop('T01', 'Translating to another basis and back returns the original coefficients',
     'For every pair of bases that can be translated into each other, translating there and back returns every coefficient that has an image in the other basis, with the same value, at every scale and for every choice of input parameters. '
     'This holds for coefficients one by one (real and imaginary part) and for all of them together.',
     ['inputs', 'configurations'], 'every coefficient, value, scale and parameter set',
     'Tests go there and back for one random or a few fixed points, only at default parameters.',
     [_T, 'wilson/translate/smeft.py', 'wilson/translate/smeft_higgs.py'], [('registered pairs of inverse translators', 'wilson/translate/__init__.py, wilson/translate/wet.py')],
     'exhaustive exploration of every unit direction of every invertible pair of translators',
     'Every coefficient of every source basis; translators are linear (T05), so the unit directions determine them. Which coefficients have an image is frozen.')

prop('T02', 'Different translation paths between bases agree',
     'Whenever coefficients can reach a basis both directly and through an intermediate basis, both ways give the same values for the content the intermediate basis can hold, for every source coefficient, scale and parameter set. '
     'The observable-specific bases (EOS, formflavor, Bern) hence describe the same Lagrangian as the flavio and JMS bases.',
     ['inputs', 'configurations'], 'every translation path and every coefficient',
     'Tests compare no two paths for a complete set of coefficients.',
     [_T, 'wilson/translate/smeft.py', 'wilson/wcxf/converters/eos.py'], [('registered translators forming triangles', 'wilson/translate/__init__.py')],
     'exhaustive exploration of all translation triangles over every unit direction; EOS against the flavio conventions',
     'Every triangle x every direction; content an intermediate basis cannot hold is excluded by a frozen list.')

prop('T03', 'Restricting a translation to sectors keeps the requested coefficients exact',
     'Asking a translation for some sectors returns, for every coefficient of these sectors, exactly the value the unrestricted translation gives, whatever coefficients of other sectors are present, and never fails because of the restriction. '
     'Anything it returns in addition also has the unrestricted value.',
     ['inputs', 'configurations'], 'every translator and every set of sectors',
     'Tests translate with sectors in two places.',
     [_T, 'wilson/translate/__init__.py'], [('sectors argument of the translators', 'wilson/translate/wet.py')],
     'enumeration of every translator x every sector (pairs of sectors for small theories)',
     'Every sector of each basis on dense input.')

prop('T04', 'Every basis translation has the documented normalisation and content',
     'Each translation maps every coefficient of the source basis to the same coefficients of the target basis with the same factors: those of the documented operator definitions, including phases, CKM elements, quark masses at the scale of the coefficients, couplings and signs. '
     'The factors respond to each input parameter and to the scale in the documented way.',
     ['inputs', 'configurations'], 'every source coefficient, parameter and scale',
     'Tests check individual entries of a few translators.',
     [_T, 'wilson/translate/smeft.py', 'wilson/translate/smeft_higgs.py', 'wilson/data'], [('translator functions and JSON tables', 'wilson/translate, wilson/data')],
     'exhaustive exploration of every unit direction against a frozen table, every parameter varied alone',
     'All 30 translators x all directions; table frozen on the pinned tree with the recorded fixes.')

prop('T05', 'Translation is linear, complete in its inputs and free of side effects',
     'Translating a sum of coefficients gives the sum of the translations, scaling the coefficients scales the result, and zero stays zero. '
     'Unspecified parameters take their default values, extra parameters are ignored, a coefficient may be given as any numeric type, and neither the source, the parameter dictionary nor later translations are affected by a translation.',
     ['inputs', 'histories', 'configurations'], 'every combination of inputs, parameter dictionaries and repetition',
     'Tests translate each input once with fixed parameters.',
     [_T, 'wilson/translate/__init__.py', 'wilson/wcxf/classes.py'], [('translators and their parameter handling', 'wilson/translate')],
     'enumeration of input pairs, scalings, parameter dictionaries and repetitions for every translator',
     'Every translator; superposition on dense and sector-supported inputs.')

_R = ['wilson/run/wet/rge.py', 'wilson/run/wet/classes.py', 'wilson/run/wet/adm.py', 'wilson/run/wet/definitions.py']
prop('R01', 'Low-energy evolution obeys the group law and the known analytic solutions',
     'Running Wilson coefficients in WET, WET-4 or WET-3 to the same scale changes nothing, running in two steps equals running in one (exactly in QCD, to first order in QED), and running back undoes it, for every set of scales, parameters and coefficients. '
     'Where the one-loop solution is known in closed form (currents, Delta F=2, baryon number violation, the electroweak logarithm of semileptonic decays) the result equals it; each of the QCD and QED orders can be switched off alone, and the QED correction is proportional to the electromagnetic coupling.',
     ['inputs', 'configurations'], 'every coefficient vector, scale triple and parameter set',
     'Tests compare a few evolved numbers with hard-coded values.',
     _R, [('evolution matrices from anomalous dimensions', 'wilson/run/wet/rge.py: getUs, getUe, run_sector')],
     'enumeration of all scale triples and parameter points of a grid; group law and analytic solutions as oracle',
     'Dense inputs on every triple of a scale grid; dipoles fed by leptons are excluded from the group law (mass ratios frozen at the input scale).')

prop('R02', 'Low-energy evolution respects parity, CP, flavour relabelling and sectors',
     'The evolution commutes with the symmetries of QCD and QED: parity, CP and relabelling of flavours (together with their masses), for every coefficient, scale, order and theory. '
     'It is real-linear, scale-free, keeps hermitian coefficients real, creates nothing from nothing, and no sector influences another.',
     ['inputs', 'configurations'], 'every coefficient, symmetry operation, scale and parameter set',
     'No test checks a symmetry of the evolution.',
     _R, [('anomalous dimension matrices and their index tables', 'wilson/run/wet/adm.py, wilson/data/run_wet_definitions_coeffs.json')],
     'exhaustive exploration of all symmetry generators over dense inputs covering every coefficient',
     'All generators of the flavour group, P and CP; relabelling of flavours of unlike mass restricted to four-fermion operators.')

prop('R03', 'Every low-energy coefficient evolves with the documented anomalous dimensions',
     'For every coefficient of the JMS basis in WET, WET-4 and WET-3 as the only non-zero input, the coefficients generated by running between two scales, up or down, with given parameters and orders, are those of the published one-loop anomalous dimensions, including the rescaling of dipole and gluonic operators with the running masses and couplings.',
     ['inputs', 'configurations'], 'every coefficient as source, several scales, parameter sets and orders',
     'Tests check a handful of coefficients at one scale.',
     _R, [('anomalous dimension matrices', 'wilson/run/wet/adm.py')],
     'exhaustive exploration of every input direction against a frozen output fingerprint',
     'All 4109 sources; targets through fingerprints frozen on the pinned tree with the recorded fixes.')

prop('R04', 'Low-energy evolution does not depend on sectors asked for, call form or history',
     'Restricting the evolution to sectors returns exactly the unrestricted values of these sectors; absent, partial and complete parameter dictionaries mean the same where they agree, and every parameter given is used. '
     'The result of a run does not depend on earlier runs with other theories, scales, parameters or orders, a runner can be reused in any order, inputs are never modified, and the continuous solution agrees with the discrete one at every point.',
     ['histories', 'configurations'], 'every sequence of requests, set of sectors and parameter dictionary',
     'Tests run each setup once in one process.',
     _R + ['wilson/classes.py'], [('memoised evolution matrices, sector selection, continuous solution', 'wilson/run/wet/rge.py: lru_cache; wilson/run/wet/classes.py: WETrunner')],
     'enumeration of all sequences of near-identical requests to a depth against fresh processes',
     'All pairs (thorough: triples) of 14 requests; every sector and pairs of sectors; all orders of 4 operations on one runner.')

_C = ['wilson/classes.py']
prop('C01', 'A Wilson instance answers every request as a fresh one would',
     'Whatever was asked of a Wilson instance before - other scales, EFTs, bases, sectors, option changes, clear_cache, failing calls, calls to other instances - the answer to a request is the one a freshly created instance with the current options gives. '
     'In particular no cached result survives a change of options, and no result restricted to sectors is returned for an unrestricted request or the other way round.',
     ['histories'], 'every sequence of operations',
     'Tests make one or two requests per instance.',
     _C, [('cache of results', 'wilson/classes.py: Wilson.match_run, _get_from_cache, _set_cache, clear_cache'), ('option changes', 'wilson/classes.py: ConfigurableClass.set_option')],
     'exhaustive enumeration of all operation sequences to a depth on the real class, against fresh instances',
     'All sequences of 3 operations (thorough 4) ending in a request, from SMEFT, WET and WET-4 input.')

prop('C02', 'Options are validated, isolated and effective',
     'An option set on an instance affects that instance only; a changed default affects only instances created afterwards; invalid names or values are refused and change nothing; accepted values are stored in their documented type, never as a reference to the object of the caller, and the deprecated parameter delta means gamma. '
     'Each option has the same effect on results however it was set.',
     ['histories', 'configurations'], 'every sequence of option changes and instance creations',
     'Tests set a few options on one instance.',
     _C, [('configuration', 'wilson/classes.py: ConfigurableClass.set_default_option, set_option, get_option; Wilson.parameters')],
     'exhaustive enumeration of all operation sequences to a depth against a two-level model of defaults and instance options',
     'All sequences of 4 operations (thorough 5) on the class and two instances; every valid/invalid value.')

prop('C03', 'The hash of a Wilson instance identifies its coefficients and options',
     'The hash of an instance changes whenever its coefficients or the value of any option changes, differs for any two option settings, is the same again when the options are set back, and is not affected by requests or any other read access. Different instances with different coefficients, scales, EFTs or bases have different hashes.',
     ['histories', 'configurations'], 'every combination and sequence of option values',
     'Tests change one option and one coefficient.',
     _C, [('hash', 'wilson/classes.py: Wilson.__hash__')],
     'exhaustive enumeration of all option combinations and change sequences',
     'All 2304 x 9 / 2 option combinations, all sequences of 3 changes.')

prop('C04', 'match_run is the composition of translation, running and matching',
     'For every input EFT, basis and scale and every output EFT, basis and scale reachable, match_run returns exactly the composition of translation to the running basis, running, matching at the configured thresholds, running and translation to the output basis, with the accuracy, orders, matching scales and parameters of the instance used in every step. '
     'Impossible requests (upwards, unknown EFT or basis) are refused.',
     ['inputs', 'configurations'], 'every path, option set and coefficient',
     'Tests follow a few paths with default options.',
     _C, [('path selection', 'wilson/classes.py: Wilson.match_run')],
     'exhaustive enumeration of all paths x option sets against an explicit composition of elementary steps',
     'All 13 inputs x 16 outputs x scales incl. the thresholds; each option and each parameter alone.')

prop('C05', 'Restricting match_run to sectors returns exactly these sectors',
     'With sectors given, match_run into WET, WET-4 or WET-3 returns the coefficients of these sectors with the values they have without the restriction, and no others, for every input EFT, basis, scale (also the input scale) and set of sectors, in any order of requests.',
     ['inputs', 'histories', 'configurations'], 'every set of sectors, path and order of requests',
     'One test asks for one sector.',
     _C + ['wilson/translate/wet.py', 'wilson/run/wet/classes.py'], [('sectors', 'wilson/classes.py: Wilson.match_run; wilson/run/wet/classes.py: WETrunner.run')],
     'exhaustive enumeration of every sector x path, and of request sequences, against the unrestricted answer',
     'Every single sector on every path, pairs of small sectors; thorough: all pairs.')

prop('C06', 'Instances can be created, stored and continued without loss',
     'Creating an instance from a dictionary, a WC object or a JSON or YAML file is equivalent, for every EFT and basis; the objects of the caller are neither changed nor referred to. Invalid coefficients, EFTs, bases and values are refused. '
     'Results of match_run are valid WCxf files: storing one at a threshold or any intermediate point, loading it and continuing leads to the same final result as running at once.',
     ['inputs', 'histories'], 'every coefficient, basis, way of creation and sequence of stops',
     'Tests create instances from dictionaries and continue nowhere.',
     _C + ['wilson/wcxf/classes.py', 'wilson/run/wet/rge.py'], [('construction', 'wilson/classes.py: Wilson.__init__, from_wc, load_wc')],
     'exhaustive enumeration of constructors, invalid inputs and all sets of intermediate stops with serialisation',
     'All inputs; one, two or all stops between each pair of EFTs (thorough: all subsets).')

prop('C07', 'Continuous solutions deliver the right plot data',
     'plotdata of a continuous solution returns the requested number of points, logarithmically or linearly spaced from the lower to the upper end of its range, with the real or imaginary part of the requested quantity at each of them, for coefficients and Standard Model parameters, running up or down; plot passes exactly these data, its label and arguments on.',
     ['inputs', 'configurations'], 'every range, grid, part, number of points and quantity',
     'One test plots one coefficient.',
     _C + ['wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/wet/classes.py'], [('RGsolution', 'wilson/classes.py: RGsolution.plotdata, plot'), ('continuous solutions', 'wilson/run/smeft/classes.py, wilson/run/wet/classes.py: run_continuous')],
     'exhaustive enumeration of argument combinations against analytic solutions and discrete evolution',
     'Synthetic solutions: all argument combinations; real ones in all EFTs.')

prop('C08', 'Concurrent requests give the same answers under every schedule',
     'Several threads asking the same Wilson instance for results (any mixture of scales, bases and sectors) each receive the answer of a fresh instance, whatever the interleaving, and so do later requests; independent evolutions running in different threads do not influence each other.',
     ['schedules'], 'every interleaving of the threads',
     'No test uses threads.',
     _C + ['wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py'], [('shared cache', 'wilson/classes.py: Wilson._set_cache, _get_from_cache'), ('memoised contractions', 'wilson/run/smeft/beta.py')],
     'stateless model checking of the real code: all schedules with one (two) preemptions at line granularity under a controlled scheduler',
     'All one-preemption schedules of all pairs of 8 requests; two preemptions for selected pairs (thorough: all pairs of 5).')

prop('H01', 'No call leaves a trace in the process',
     'Every function of the package gives the answer it gives in a fresh process, whatever other parts of the package were used before in the same process: evolutions, translations and exports with other parameters, failing calls, changed and restored defaults, continuous solutions.',
     ['histories'], 'every sequence of calls',
     'Tests check single calls; order is never varied.',
     ['wilson'], [('module-level tables, default parameters and memoised functions', 'wilson/parameters.py, wilson/run/smeft/smpar.py, wilson/run/wet/rge.py, wilson/run/smeft/beta.py, wilson/util/qcd.py')],
     'exhaustive enumeration of all operation sequences to a depth in isolated processes against fresh processes',
     'All ordered pairs (thorough: triples) of 17 operations with all of them as probes.')
