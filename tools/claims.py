CLAIMS = {
 "C04": ("TLA+ register-machine spec (TLC exhaustive on all small programs) + spec-generated programs replayed into the code + TLC trace validation of recorded program histories",
         "Design: exhaustive within the stated bounds. Code: every recorded call must be a step of the specification; sampled worlds and histories. Trusts the driver's projection and that the integer-valued instruction set is representative."),
 "C01": ("TLA+ graph-edit spec (TLC exhaustive on small graphs, two graphs with moves) + TLC trace validation of random edit histories on the real graph",
         "Design: all edit sequences within 3-4 vertices. Code: every call of recorded histories must be a step of the specification and its full projection must match."),
 "C02": ("TLA+ evolution relation (TLC exhaustive on small growth/removal sequences) + TLC trace validation of recorded initialisations, population steps and single mutator calls",
         "Random draws are nondeterministic in the specification; sampled parameter sets and seeds. One open known finding (destination choice)."),
 "C05": ("TLA+ mutation relation (TLC exhaustive on a tiny environment: the algorithm refines the relation) + TLC trace validation of recorded mutator calls",
         "Sampled environments, parameter sets and seeds; exact step relation when one operation is enabled, bounds otherwise."),
 "C03": ("TLA+ inference spec over graph and register machine (TLC exhaustive on bid assignments incl. NaN/-inf/ties) + TLC trace validation of recorded inferences with every evaluated bid",
         "Sampled acyclic graphs, programs, data and edit histories; exact path and recorded bids per inference."),

 "C06": ("TLA+ archive spec (TLC exhaustive on short recording sequences) + TLC trace validation of recorded archive histories, direct and inside evolution",
         "Design: all operation sequences of bounded length on 2 programs, 2 hashes. Code: full archive projection after every call of recorded histories; probabilistic recording is nondeterministic, its rate checked within a wide band."),
 "C07": ("TLA+ uniqueness verdict over the archive spec (TLC exhaustive on small archives) + TLC trace validation of recorded verdicts and of the programs kept by population steps",
         "Sampled archives, candidate maps on tolerance boundaries, and population steps; the result of kept programs is recomputed by the driver with the public engine."),
 "C08": ("TLA+ data-handler spec (TLC exhaustive on small handlers and operation sequences) + TLC trace validation of recorded handler histories",
         "Sampled shapes, exhaustive addresses for each sampled handler; hash difference is checked on the contents met in the histories."),
 "C09": ("TLA+ spec of the worker pool (TLC: every interleaving gives the sequential result, liveness of termination) + completion orders enumerated from it imposed on the real agents + TLC trace validation of parallel against sequential trainings, with monitored memory accesses",
         "All interleavings of 3-4 jobs and 3 workers in the specification; real trainings under imposed completion orders, jitter and free schedules, 0 to 8 threads; unordered accesses seen by ThreadSanitizer become events the specification refuses."),
 "C10": ("TLA+ spec of training as a function of (seed, generation) (TLC: all interleavings of two agents with re-initialisations) + TLC trace validation of repeated, interleaved and re-initialised trainings across processes",
         "Sampled parameter sets and agents of all kinds; the same training is recorded in two processes with different memory layouts."),
 "C11": ("TLA+ spec of evaluation budgets, weighted means and records (TLC exhaustive on small trainings; merge algebra) + TLC trace validation of recorded evaluations with the environment's call log",
         "Scores are small integers so means are exact rationals; sampled parameter sets and histories."),
 "C12": ("TLA+ spec of selection and records (TLC exhaustive on small trainings) + TLC trace validation of trainings and of selection on every small population",
         "All populations up to 4 (5) roots with ties for the selection step; sampled training histories."),
 "C13": ("TLA+ tournament spec (TLC exhaustive on short trainings with 2-3 agents) + TLC trace validation of recorded adversarial trainings: champions, every match, every result",
         "Scores are small integers so means are exact rationals; sampled parameter sets, champion pools and thread counts."),
 "C14": ("TLA+ confusion-table / F1 / class-expert selection spec (TLC exhaustive on small tables; every tie order of the selection algorithm equals the allowed results) + TLC trace validation of guess histories, trainings and constructed selections",
         "F1 scores are exact rationals; sampled guess histories and populations."),
 "C15": ("TLA+ spec of writing and reading graph files (TLC: every small graph, sharing, edge order and sub-graph comes back the same) + TLC trace validation of recorded exports and imports up to isomorphism, with inferences on both graphs, and on every graph of a bounded family",
         "Action identifiers are unique in the graphs saved (an imported graph has one action per identifier). Sampled graphs beyond the exhaustive family."),
 "C16": ("TLA+ spec of the generated selection code of both modes (TLC: every small graph and bids, ties and NaN included, refines the library's selection) + TLC trace validation of compiled generated code, called in sequence and compared with the spec's inference and the library's",
         "Arithmetic operands are small integers that doubles represent exactly; the compiler used is gcc. Action identifiers fit an int."),
 "C17": ("TLA+ spec of inferences counting one event at a time (TLC: every interleaving of concurrent inferences, resets, data changes and pruning) + TLC trace validation of every counter recorded after sequential and concurrent use, and flow conservation over whole trainings",
         "Thread interleavings of the real code are those the machine produces; the spec's are exhaustive within bounds. Direct evaluateTeam calls are counted but excluded from the replay guarantee after pruning."),
 "C18": ("TLA+ spec of the statistics' definitions (TLC: the stage by stage walk of every small graph, cyclic ones included, gives them; executions counted by the graph and kept by the engine agree) + TLC trace validation of every accessor, the text report and the JSON file",
         "Averages over zero inferences are excluded; averages in the JSON file are compared at its 6 digits for up to 1000 inferences."),
 "C19": ("TLA+ spec of the depth-first search (TLC: every directed graph with up to 3-4 vertices; one verdict, equal to the existence of a cycle) + TLC trace validation of the logger's verdicts on exhaustively enumerated and random graphs",
         "All graphs with up to 3 teams (quick) or 4 (thorough), random graphs with edit histories beyond; the oracle is a transitive closure, not a search."),
 "C20": ("TLA+ spec of parameter files (TLC: every sequence of assignments, writes, hand edits and loads, one member at a time in any order) + TLC trace validation of recorded writes and loads, with the leaves of each written file read independently",
         "Sampled values including the extremes of each type; each parameter named at most once, at its documented place, with a value of its type."),
 "C21": ("TLA+ spec of the training loop telling loggers (TLC: any passing of time between notifications, any moment of the stop flag; table rows and best-root descriptions equal the facts) + TLC trace validation of recording loggers around the library's ones, their text parsed, durations enclosed by the recorders' clocks",
         "Sampled trainings of all kinds of agents; scores below 1000; no re-initialisation under the policy logger, which knows roots by address."),
 "C22": ("TLA+ spec of random draws (TLC: small engines adapted to every range of small integers, signed or not, one raw number at a time; no value favoured) + TLC trace validation of recorded draws, copies and re-seedings against the raw numbers of the standard engine",
         "Sampled seeds, bounds (extremes included) and histories; real draws on 0..1 are compared to 2048 units in 2^64, on other bounds to about 1 part in 2^20."),
 "C23": ("TLA+ spec of environments, lines and engines (TLC: the filter operand by operand on every small environment, every edit of small programs, engines checking programs and sources one by one) + TLC trace validation of recorded constructions, edit histories and engine histories with the results of executions",
         "Sampled instruction sets, sources of 7 kinds and histories; the programs of one engine history agree on the numbers of registers and on having constants. One open known finding (bits of instruction and destination exchanged)."),
}
NA = {}
