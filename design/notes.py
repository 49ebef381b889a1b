# id -> (oracle, why this reaches what tests cannot, known limits)
N = {
'C01': ('no panic, fatal error or hang; valid UTF-8 out when valid UTF-8 in',
        'tests call functions with sensible arguments; here every exported function meets every combination of hostile values',
        'time is bounded by a 45 s watchdog, not by an asymptotic claim'),
'C02': ('reference parser `model/parse.go`, same error kinds, all four entry points and reused destinations',
        'a parse depends on IDD, calling code, national prefix, transform rule, extension syntax and lengths at once; the transition cover visits every combination the plans can express',
        'written forms are those of the token grammar'),
'C03': ('parse(format(n)) = n; the model decides validity and which renderings are ambiguous in the plan itself',
        'one wrong rule of one region shows only for numbers that select that rule', ''),
'C04': ('reference formatter `model/format.go`; digits appear once and in order',
        'every formatting rule of every plan is selected by some explored number, with every extension and custom-rule variant', ''),
'C05': ('reference classifier over the plan patterns, and the coherence laws between the answers',
        'product automaton: one access string per transition decides all numbers up to 18 digits', ''),
'C06': ('reference length table derived from the metadata',
        'lengths x types x calling codes is small enough to enumerate completely', ''),
'C07': ('`model.Match`, symmetry, self-match, arguments unchanged',
        'pairs: the space is a square, which tests sample along a few lines', ''),
'C08': ('structural invariants (offsets, order, disjointness, raw text, number = parse(raw)), budget, re-iteration, early stop',
        'iteration protocols and token interleavings are enumerated, not picked', ''),
'C09': ('`model.Find`/`model.Verify`, a second implementation of the leniency definitions; implications between levels',
        'every grouping of numbers of every plan class; alternate formats included', ''),
'C10': ('digits shown = digits typed, in order; typed formatting shown verbatim; position behind the remembered character — after every key',
        'the formatter is a state machine with ~20 state variables; histories with remembered positions, restarts and user formatting are enumerated', ''),
'C11': ('reference state machine `model/aytf.go`, compared after every key; Clear vs. new formatter; two sessions interleaved',
        'every transition of the product automaton is typed key by key in national, international and IDD form', ''),
'C12': ('reference short-number classifier', 'complete product automaton of every short plan', ''),
'C13': ('reference emergency rule', 'all strings of up to four digits x all regions, and the automaton of each plan', ''),
'C14': ('own decoder of the embedded tables, longest-prefix search, fallback rules',
        'all entries of all tables (hundreds of thousands) in all languages', 'display names are x/text\'s'),
'C15': ('own decoder, longest-prefix search, aliasing probe', 'all entries', ''),
'C16': ('each call\'s answer when run alone in a fresh process; race detector; deadlock detection',
        'interleavings at first use happen once per process: here each schedule gets a process of its own and is driven, not hoped for',
        'bounds: 2-3 goroutines, 1-2 preemptions. The driver is built from /repo with an overlay in which the standard library\'s `sync` and `sync/atomic` report every operation to the scheduler (`conc/overlay.go`), so the library itself is unmodified; the scheduler waits by yielding, adds no happens-before edge, and one goroutine runs at a time. Preemption happens at the library\'s own synchronisation operations, which suffices for programs without data races; data races are what the detector reports. Two-goroutine, one-preemption searches skip schedules that only move an operation past operations on other objects or past other reads (`conc/proto.go`, explorePair). If the library grows goroutines, channels, conditions or timers, the scheduler cannot control it: the check then makes uncontrolled concurrent runs and says so (exhaustive=false)'),
'C17': ('the same call made first in a fresh process; arguments compared with copies; everything handed out is overwritten',
        'histories: all ordered pairs, walks over the whole API in several orders', ''),
'C18': ('reference renderer of dialling strings', 'class representatives x all regions called from', ''),
'C19': ('reference original-format renderer', 'all ways of writing x all plan transitions', ''),
'C20': ('Unicode tables and the documented normalisation maps', 'all 1,114,112 code points, everywhere a character can occur', ''),
'C21': ('model of the collection in use, after every step of every swap history', 'operation sequences, and the whole plan space of each of six collections', ''),
'C22': ('independent XML reader and builder; two real runs compared byte by byte',
        'combinations of document parts and malformed parts', 'internal/metadatabuilder is called directly when it compiles; the end-to-end part runs the real program in a scratch directory with a stand-in for git'),
'C23': ('independent encoder and strict decoder; memory accounting', 'fault enumeration: every truncation and every single and paired damage of small tables', 'internal/serialize is called directly when it compiles'),
'C24': ('reference anatomy and query functions', 'all regions, calling codes and types; every plan transition', ''),
'C25': ('the field tables and wire codec of `model/wire.go`, written from the .proto files; `MergeFormat` for Merge',
        'all assignments of the small records are enumerated, so a getter, tag or default that is wrong for one field or one kind of value shows', 'the protobuf runtime itself is trusted'),
'C26': ('the reference parser, formatter and classifier, and the exact output of the program', 'the real built program runs on every case', 'about 9000 runs in the quick tier'),
}
