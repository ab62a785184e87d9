"""Per property: oracle, why enumeration reaches what tests cannot, cost (s, quick tier, 8 cores, alone)."""
N = {
'W01': ('a dictionary per class: after every operation the complete registry is compared', 15, 'order effects between four registries that share one metaclass need particular 3-5 step sequences'),
'W02': ('union of sector dictionaries with override per sector, computed from the plain definitions', 4, 'overrides through two generations and late registration are never built by the tests'),
'W03': ('set membership on the plain definitions; LaTeX answered by a stand-in executable in a scratch directory', 12, 'rejecting exactly the invalid needs the invalid neighbours (duplicates in two sectors, prefixes of known names, inherited duplicates)'),
'W04': ('structural equality with bit-wise numbers after every conversion of a sequence', 20, 'float spellings of YAML and JSON differ only for particular values (1e-7, -0.0, 1e400, integers > 2^53)'),
'W05': ('Python complex arithmetic on the spelling', 10, 'caching of views makes the access order part of the input'),
'W06': ('dictionary look-up over the registered rules', 12, 'which rule is used depends on the whole set of registered rules'),
'W07': ('SM default + value, computed from the shipped EOS tables independently of the converter', 15, 'three spellings (direct, complex part, lepton specific) of one parameter can each be wrong alone'),
'W08': ('the library call in the same process image; output bytes and exit code compared', 60, 'option product of five tools; tests need installed scripts'),
'W09': ('identity: import(export(x)) = x; dimensionless card value = coefficient x scale^(d-4)', 34, 'sign/permutation conventions of single entries of 2^4-index tensors'),
'W10': ('block/label model of the SMEFTsim card written from the operator definitions', 20, 'one wrong label affects one coefficient of one model only'),
'W11': ('what the object holds (values, metadata), read back from the Markdown, HTML and plain-text output with own parsers', 8, 'extreme numbers, text values, metadata gaps and repeated views on one instance'),
'Q01': ('independent composition of fresh RunDec primitives with documented thresholds; finite-difference RGE residual', 8, 'threshold neighbourhoods and the invalid domain'),
'Q02': ('the same call alone in a fresh process', 20, 'memoisation keys: 2.0 / 2 / True, keyword / positional, eviction'),
'U01': ('permutation-group model of each operator class (lib/symm.py): orbits, signs, conjugations and weights', 25, 'the index tables are hand-written lists of hundreds of quadruples'),
'U02': ('field content table: one unitary matrix or its conjugate per index', 8, 'a missing conjugation is invisible for real rotations'),
'S01': ('(a) symmetry identities without reference to the code: U(3)^5 covariance source by source, CP, linearity, homogeneity, selection rules, nearby-point difference quotients; (b) frozen complex fingerprints; (c) the shipped Mathematica point', 17, 'a wrong index order in one of ~1000 terms moves one number by a small amount'),
'S02': ('own fixed-step Runge-Kutta / leading-log integrator on the certified beta functions, own SM matching and basis rotation (lib/smeftref.py)', 28, 'redundant coefficients, near-equal scales, sequences on one instance'),
'S03': ('defining relations of the potential, masses and couplings re-evaluated on the answer', 12, 'sign patterns of seven bosonic coefficients; unsolvable points'),
'M01': ('independent derivation from effective W/Z/photon couplings and Fierz-ordered contact terms (lib/matchref.py)', 20, 'each of 1635 coefficients appears in up to 100 targets'),
'M02': ('frozen fingerprints of the published conditions + CP, lepton relabelling, reality, selection rules, logarithm = one-loop running', 29, 'as M01; log(mu) terms vanish at the default scale of the tests'),
'M03': ('composition of elementary translations and matching; field-content rule for thresholds', 25, 'every coefficient of every basis crosses each threshold'),
'M04': ('the renormalisation group equation of the matched coefficients, SM amplitudes from lib/matchref.py', 200, 'four ingredients written from different papers (SMEFT running, one-loop matching, tree matching, WET running) have to fit together for every coefficient; no frozen numbers; found the defect repaired in 5bca775'),
'T01': ('identity on the image, frozen kernel', 40, 'unit directions of every invertible pair'),
'T02': ('commuting triangles; EOS against flavio', 145, 'every triangle x direction; no published table needed'),
'T03': ('the unrestricted translation', 30, 'every sector of every translator'),
'T04': ('frozen table at a generic parameter point + response to each parameter', 30, 'complex CKM elements and masses are generic, so a factor or conjugation slip shows in the direction concerned'),
'T05': ('superposition arithmetic; equality of parameter dictionaries', 14, 'aliasing and defaults need pairs of calls'),
'R01': ('group law and closed-form one-loop solutions written from the anomalous dimensions', 60, 'complete operator sets at several scale triples'),
'R02': ('symmetry generators acting on names (lib/wetsym.py)', 45, 'a single entry of a 40x40 matrix breaks a permutation symmetry'),
'R03': ('frozen fingerprints of every unit direction', 40, '4109 sources'),
'R04': ('the same request in a fresh process; the unrestricted run', 60, 'memoised evolution matrices: two near-identical requests in one process'),
'C01': ('a fresh instance with the same options', 85, 'stale cache entries need request, option change, request'),
'C02': ('two-level dictionary model', 27, 'aliasing between default, instance and caller dictionaries'),
'C03': ('injectivity: configurations as dictionary keys', 4, 'pairs of option settings'),
'C04': ('explicit composition of elementary steps (lib/wilsonref.py)', 95, 'all paths x options'),
'C05': ('the unrestricted answer', 35, 'every sector on every path'),
'C06': ('the single-step answer; from_wc/load_wc/constructor compared', 82, 'storing at thresholds'),
'C07': ('closed-form synthetic solutions; discrete evolution', 32, 'downward ranges, single points, imaginary parts'),
'C08': ('fresh instance per request', 95, 'interleavings cannot be forced by a test'),
'H01': ('the same operation in a fresh fork', 160, 'module-level state leaks need two particular operations'),
}
