CHECKS = {
    "S01": ("storage", "s01"),
    "S02": ("storage", "s02"),
    "S03": ("storage", "s03"),
    "S04": ("storage", "s04"),
    "S05": ("storage", "s05"),
    "L01": ("storage", "l01"),
    "L02": ("storage", "l02"),
    "D01": ("decision", "d01"),
    "D02": ("decision", "d02"),
    "D03": ("decision", "d03"),
    "D04": ("decision", "d04"),
    "R01": ("decision", "r01"),
    "R02": ("decision", "r02"),
    "M01": ("multiple", "m01"),
    "M02": ("multiple", "m02"),
    "M03": ("multiple", "m03"),
    "G01": ("catalogue", "g01"),
    "G02": ("catalogue", "g02"),
    "G03": ("catalogue", "g03"),
    "G04": ("catalogue", "g04"),
    "G05": ("catalogue", "g05"),
    "T01": ("statistics_checks", "t01"),
    "T02": ("statistics_checks", "t02"),
    "T03": ("statistics_checks", "t03"),
    "T04": ("statistics_checks", "t04"),
    "T05": ("statistics_checks", "t05"),
    "T06": ("statistics_checks", "t06"),
    "T07": ("statistics_checks", "t07"),
    "T08": ("statistics_checks", "t08"),
    "T09": ("statistics_checks", "t09"),
    "T10": ("statistics_checks", "t10"),
    "T11": ("statistics_checks", "t11"),
    "T12": ("statistics_checks", "t12"),
    "E01": ("statistics_checks", "e01"),
}

_T = "TLA+/TLC: "
NOTES = {
    "S01": (_T + "exhaustive model of the storage map; TLC-generated histories replayed on real SQLite files; trace validation",
            "Exhaustive on the specification for small constants; the code is observed on generated histories of 24 calls by 3-4 storage objects. Trusts SQLite and SQLAlchemy."),
    "S02": (_T + "exhaustive model of best-match queries; generated histories replayed and trace-validated",
            "Exhaustive on the specification for small constants; every query answer of the replayed histories is judged by the specification."),
    "S03": (_T + "multi-step batch model (begin/stage/commit/fail/crash); scenarios enumerated by TLC, run with readers, faults and process death at every statement",
            "Every statement boundary of the scenarios run; atomicity of SQLite's own commit is trusted."),
    "S04": (_T + "codec model with header damage; recorded round trips validated with binary64/binary32 arithmetic in TLA+",
            "Bounded inputs: several hundred lists up to 66 000 elements, all version bytes, all header truncations."),
    "S05": (_T + "environment model (targets break and recover); generated behaviours replayed on real files and connection strings",
            "Fourteen connection-string classes; server databases only as unreachable or driverless."),
    "L01": (_T + "two-storage loader model; generated histories with failing stores replayed and trace-validated",
            "Exhaustive on the specification for small constants; replay on real and on ideal storages."),
    "L02": (_T + "two-storage loader model; generated histories with failing stores replayed and trace-validated",
            "Exhaustive on the specification for small constants; replay on real and on ideal storages."),
    "D01": (_T + "decision rules checked exhaustively on small limit distributions; recorded p-values judged with binary64 arithmetic in TLA+",
            "All limit distributions of up to 4 values from {0,1,2} and random ones up to 2000 values."),
    "D02": (_T + "decision rules checked exhaustively on small limit distributions; recorded critical values judged in TLA+",
            "All limit distributions of up to 4 values from {0,1,2} and random ones up to 2000 values; 15 levels."),
    "D03": (_T + "decision rules (nesting, size) checked exhaustively; recorded regions and decisions judged in TLA+",
            "Decisions through stub resolvers over the same limit distributions; series of growing levels checked for nesting."),
    "D04": (_T + "test run as a state machine, checked exhaustively; recorded runs with logging stubs judged in TLA+",
            "Sample sizes 1-101, all alternatives, stub, fixed, Monte-Carlo and default methods (10 000 simulations evaluated one by one)."),
    "R01": (_T + "test-run state machine; TLC-generated sessions of resolutions over all 21 families, every simulated sample observed",
            "Laws compared by the Kolmogorov distance of pooled draws (bound 2.6/sqrt(n)); counts 1, 24, 60."),
    "R02": (_T + "resolver over the storage map, checked exhaustively; TLC-generated histories replayed on SQLite",
            "Histories of 40 calls; one known finding (integer and float spellings of parameters)."),
    "M01": (_T + "single-step corrections checked exhaustively on grids of sorted lists; recorded adjustments judged with binary64 arithmetic in TLA+",
            "Lists up to 1000 p-values including subnormal, tied and near-1 values; relative tolerance 1e-11."),
    "M02": (_T + "step-wise corrections checked exhaustively on grids of sorted lists; recorded adjustments compared rank by rank with running extrema in TLA+",
            "Lists up to 12 000 p-values; one known finding (Holm adjusts step-up, as an existing test pins)."),
    "M03": (_T + "multiple-testing decisions, permutation, ties, purity and rejection of invalid lists judged by the specification on recorded calls",
            "All five methods; thresholds equal to adjusted values; invalid entries at first, middle and last position."),
    "G01": (_T + "registry over loaded modules, checked exhaustively, with an explicit catalogue; TLC-generated import/query histories replayed in fresh processes",
            "Every statistic class inspected with default and four other parameter rows; one known finding (two Weibull statistics with code SB)."),
    "G02": (_T + "table of parameter names, domains and defaults; recorded answers of every descriptor and validator judged with binary64 comparison in TLA+",
            "155 values per validator including signed zeros, subnormals, infinities, NaN, booleans, numpy scalars."),
    "G03": (_T + "generator objects as a state machine; TLC-generated sessions replayed, every draw judged against the declared law with distribution functions in TLA+",
            "Laws compared by the Kolmogorov distance of pooled draws (bound 2.6/sqrt(n), n up to 3000, thorough 24 000) and lag correlations; fixed seeds."),
    "G04": (_T + "commuting diagram constructor law / hypothesis / generator law checked on a parameter grid; recorded draws for every statistic judged against the null law",
            "All statistics, 3 parameter rows (thorough 8), 500 draws each (thorough 2000), Kolmogorov bound 2.6/sqrt(n); one known finding (Student location and scale)."),
    "G05": (_T + "density, distribution and moment functions specified with their defaults and checked for mutual consistency on a grid; recorded calls and draws judged with binary64 arithmetic in TLA+",
            "288 calls of 6 functions (thorough 1440), 60 (300) moments, 21 samplers with 4-5 (10) parameter rows and 626 (4626) draws each."),
    "T01": (_T + "EDF statistics specified over order statistics, checked exhaustively against their integral and supremum definitions; recorded values of all families judged by the specification",
            "60 EDF statistics of 8 families, samples of 4-150 values in any order incl. ties, relative tolerance 1e-9 (1e-7 for Zhang's Z_C)."),
    "T02": (_T + "39 normality statistics specified as functions of the order statistics, checked against subset-average, least-squares and integral definitions on small samples; recorded values judged by the specification",
            "Sample sizes 4-150 (all size branches), six kinds of samples incl. ties; published constants are part of the specification."),
    "T03": (_T + "24 exponentiality statistics specified, checked against pair and triple definitions on small samples; recorded values judged by the specification",
            "Sample sizes 4-150 (counting statistics up to 14-40), several values of each tuning parameter."),
    "T04": (_T + "23 Weibull statistics specified (maximum-likelihood fit by bisection in TLA+), group laws model-checked; recorded values judged by the specification",
            "Two known findings (values pinned by existing tests): the RSB statistic uses the unsorted sample, the SPP statistic pairs in reverse order."),
    "T05": (_T + "uniform, beta, gamma and Student statistics specified, group laws model-checked; recorded values judged by the specification",
            "Several parameter rows and tuning parameters per statistic; binning judged with the specification's own quantile functions."),
    "T06": (_T + "log-normality statistics specified as normality statistics of standardised logs, group laws model-checked; recorded values judged by the specification",
            "43 statistics; the Kullback-Leibler integral to 1e-2 (the library's ratio is rounding noise near 0)."),
    "T07": (_T + "graph quantities defined over vertex sets and as scans of the sorted sample, equality checked exhaustively; grid samples with exact joining distances enumerated by TLC, replayed and judged",
            "All 8-point grid samples spanning ten steps with an exact joining distance (thorough more of them); drawn samples of 1-100 values, lists and arrays."),
    "T08": (_T + "state machine of samples, configured objects and evaluations (heap unchanged, memo of results); generated sessions replayed over all statistics",
            "Sessions of 36 evaluations on shared samples and objects; every statistic offered takes part. The sample object is compared after every evaluation."),
    "T09": (_T + "the same state machine with permutations and containers as sample representations; generated sessions replayed over all statistics",
            "Lists, tuples, arrays, permuted views; sorted, reversed and shuffled orders chosen by TLC."),
    "T10": (_T + "the group granted to each composite-null statistic is part of the specification, its invariance checked exhaustively on the specification; pairs of evaluations judged by it",
            "8 (thorough 40) pairs per statistic; drawn samples of 4-200 values; random scales, shifts and powers (exact powers of two for tied samples and comparison counts)."),
    "T11": (_T + "joint action of the family's group on sample and parameters specified and checked on the specification; pairs of evaluations, stated hypotheses, and parameter sweeps judged by it",
            "8 (thorough 40) pairs per statistic and option; each parametrised statistic on the same samples under 4 (8) null laws."),
    "T12": (_T + "admission rules specified and checked exhaustively on small samples; constructor calls and samples at the boundaries enumerated by TLC, put to every statistic and judged by the specification",
            "All pairs from nine boundary values per parameter (subnormals, signed zero, neighbours of 1); samples of 0-12 values with one marked observation at, next to and beyond each bound."),
    "E01": (_T + "maximum-likelihood estimates specified and checked to be maxima (parameter moves, symmetry, scaling) on all small samples; recorded likelihoods judged by the specification",
            "All samples of up to 2 (thorough 3) grid values and drawn ones of 3-40 values for 20 families; values to 1e-9 (searched families 1e-6); Student and Fisher between bounds about 0.3-1 apart in log likelihood."),
}
NOT_APPLICABLE = {}
