NA = {}
POOL = ("The design specification is exhaustively checked (2 workers, 2-3 jobs); the real C source is run under a controlled scheduler over "
        "specification-generated client programs and every recorded trace must be a behaviour of the contract. Schedules are sampled; "
        "sequentially consistent memory is assumed; the harness' stand-ins for pthread primitives are trusted.")
CH["C01"] = ("TLA+ contract + design refinement (TLC), traces of the real pool under a controlled scheduler validated by TLC", POOL)
CH["C02"] = ("TLA+ contract + design refinement and liveness (TLC), traces of the real pool under a controlled scheduler validated by TLC", POOL)

SESS = ("Histories are sampled by TLC simulation of the specification (bounded program sizes); the meaning at the specification's exact rational point "
        "comes from the specification, at further points from a floating-point interpreter that is checked against it on every program. gcc is trusted.")
CH["C05"] = ("TLA+ specification of the recorder and its generations; TLC-generated recordings x options replayed into the real generator, generated C compiled, run and compared", SESS)
CH["C06"] = ("TLA+ specification of recorder histories (record/generate/reset); TLC-generated histories replayed into the real recorder, every generated source compiled, run and compared", SESS)
CH["C19"] = ("TLA+ specification of recorder histories; DOT, LaTeX and MathML outputs of TLC-generated histories are read back by parsers and evaluated against the specification's meaning",
             SESS + " Loop, array and user-function constructs of these languages are not covered.")

CH["C07"] = ("TLA+ specification of recordings with nested, sharing conditional expressions; generated C, DOT, LaTeX and MathML outputs are run or read back at decided points", SESS)
CH["C14"] = ("TLA+ specification of recorder histories with user functions; every re-evaluation (numbers, AD, CG, AD<CG>) of TLC-generated histories is compared with the specification's meaning",
             SESS + " Recordings made by evaluators are given a meaning by a graph interpreter in the driver.")
MODEL = ("Models, options and call histories are sampled by TLC simulation (bounded sizes); at the specification's exact rational point answers come from the "
         "specification, at generic points from a differentiating interpreter which is checked against the specification on every model. gcc is trusted.")
CH["C09"] = ("TLA+ specification of compiled models with exact rational derivatives; TLC-generated models, options and call histories replayed into real compiled libraries", MODEL)
CH["C10"] = ("TLA+ specification of compiled models; TLC-generated models with requested elements replayed, patterns compared in every form and with the derivatives", MODEL)
CH["C08"] = ("TLA+ specification of compiled models that call user functions; TLC-generated models, options and call histories replayed into real compiled libraries", MODEL)
CH["C03"] = ("TLA+ specification of multithreaded models and their thread settings; TLC-generated models, settings and call histories replayed into real compiled pthreads and OpenMP libraries",
             MODEL + " Thread schedules are those of the running system.")
CH["C12"] = ("TLA+ specification of index patterns and their detection (TLC, every small map); patterns the code detects for specification-generated maps are judged by TLC, their C text is compiled and run",
             "Every map of up to 4 (thorough: 5) points, longer ones sampled. gcc is trusted; the DOT, LaTeX and MathML texts of patterns are not covered.")
CH["C13"] = ("TLA+ specification of libraries, models, user functions and external models over time; TLC-generated histories performed on the real objects, one process each",
             "Histories are sampled by TLC simulation (up to 60 actions on 4 live libraries); memory errors are detected when they change an answer or end the process. gcc is trusted.")
CH["C20"] = ("TLA+ specification of tapes that call compiled models, with exact rational derivatives; TLC-generated models, tapes and requests replayed with real compiled libraries inside CppAD recordings", MODEL)
CH["C04"] = ("TLA+ machine of scalar values (constants, variables with and without values, moved and copied); TLC-enumerated and simulated histories replayed on the real scalar type, debug and NDEBUG builds",
             "One and two (thorough: three) steps from every initial state of 2-3 registers exhaustively, longer histories sampled; operands are small rationals, so non-finite results and rounding are outside.")
CH["C11"] = ("TLA+ specification of models with repeated equations and declared groups; TLC-generated models, options and call histories replayed into real compiled libraries with loop detection", MODEL)
CH["C16"] = ("TLA+ specification of recorded graphs, their paths and searches; searches of every small graph (TLC) and of simulated histories answered by the real code handler",
             "Every recording of 3 and 4 (thorough: 5) nodes with up to two arguments exhaustively; recordings of 10 and 16 nodes, with generations of code in between, sampled.")
CH["C15"] = ("TLA+ specification of recorded equations, substitutions and removed variables; TLC-simulated histories of solveFor/substituteIndependent/removeIndependent replayed into the real code handler, values compared at points of the equation",
             "Histories are sampled by TLC simulation (one recording of up to 24 operations, several equations). Solutions are judged at points where the specification's equation holds; where the specification cannot say whether the occurrences can be collected both answers are allowed.")
CH["C18"] = ("TLA+ design of the build pipeline and of the compiler processes (TLC, safety and liveness) and TLA+ histories of builds with faults; every fault at every position and simulated histories performed by the real library with stand-in compilers that fail as told",
             "One fault at a time within a build, several builds per history. The stand-in compiler really compiles with gcc otherwise; a linker that lies about its success is outside, as are out-of-memory and failures of fork and pipe.")
CH["C17"] = ("TLA+ machine of structural index reduction (TLC: terminates, least and unique counts, singular systems never end) and TLA+ generated systems with exact total time derivatives; reduced by the real Pantelides and Soares-Secchi algorithms and compared",
             "Every structure of 2 equations in the design; concrete systems of up to 5 equations with first- and second-order chains, parameters and time sampled by TLC simulation. Polynomials and quotients only; DummyDerivatives is outside.")
