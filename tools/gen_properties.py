#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for titles/statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
S = "gegelatilib/src/"; I = "gegelatilib/include/"

prop("C01", "Graph edits keep the tangled program graph consistent",
 "After any sequence of graph edits (add team/action/edge, remove vertex/edge, clone vertex/edge, move an edge's source or destination, clear, move the whole graph to another object), every edge joins two vertices of the graph and appears exactly once in its source's outgoing list and its destination's incoming list; actions have no outgoing edge and the reported roots are exactly the vertices without incoming edge. "
 "Removing a vertex removes exactly its own edges, cloning a vertex copies its outgoing edges (sharing programs) and nothing else. "
 "An edit that is refused (foreign vertex, edge starting at an action, unknown edge) leaves the graph unchanged.",
 ["histories", "inputs"], "every finite sequence of edit calls, valid or refused, on any graph",
 "Tests exercise each edit once or twice on fixed 3-6 vertex graphs; interleavings of edits (e.g. moving then deleting, refused edits in the middle) are never composed.",
 [S+"tpg/tpgGraph.cpp", S+"tpg/tpgVertex.cpp", S+"tpg/tpgEdge.cpp", S+"tpg/tpgAction.cpp", S+"tpg/tpgFactory.cpp"],
 [("edge registration on both end points", S+"tpg/tpgGraph.cpp addNewEdge/removeEdge/setEdgeSource/setEdgeDestination"), ("cascade removal", S+"tpg/tpgGraph.cpp removeVertexWithIdentifier")],
 [("vertices, edges", "the graph", I+"tpg/tpgGraph.h")], ["public getters of the graph, vertices and edges after every call"])

prop("C02", "Evolution keeps policies well-formed and acyclic",
 "For any parameters accepted by the library and any seed, after initialization and after every population step the graph has no directed cycle, every team has at least two and at most the configured number of outgoing edges, edges that share a program lead to the same destination, and the number of roots is at least the configured one. "
 "Mutation never changes the outgoing edges, destinations or programs of a vertex that existed before the population step, never removes or merges actions, and mutation of a destination honours the configured choice between teams and actions. "
 "Initialising with fewer than two actions, fewer than two initial edges per team, or more initial edges than actions is refused and changes nothing.",
 ["histories", "configurations", "inputs"], "every mutation history, every seed and every parameter set with 2 <= maxInitOutgoingEdges <= min(nbActions, maxOutgoingEdges) and pProgramMutation > 0",
 "Tests run a few mutations with one seed and golden values; they do not check acyclicity, preservation of old vertices or arity bounds over long histories and unusual parameter sets.",
 [S+"mutator/tpgMutator.cpp", S+"tpg/tpgGraph.cpp"],
 [("new teams point only to pre-existing vertices", S+"mutator/tpgMutator.cpp populateTPG/mutateTPGTeam/addRandomEdge"), ("arity guards", S+"mutator/tpgMutator.cpp mutateTPGTeam/removeRandomEdge")],
 [("graph", "evolved graph", I+"tpg/tpgGraph.h")], ["graph before/after each mutator call"])

prop("C03", "Inference follows the highest bid to exactly one action",
 "Evaluating a policy visits teams from the given root, at each team evaluates every outgoing edge's program on the current data, and follows the edge with the highest bid, the last one in edge order among equals, a not-a-number bid counting as minus infinity, until an action is reached. "
 "The returned trace is exactly that path, ends in the only action of the trace, and depends only on the graph, the programs and the data.",
 ["inputs", "programs", "histories"], "every acyclic graph, every program, every data content, every sequence of inferences on the same engine",
 "Tests check a handful of traces on one fixed graph; ties, NaN, infinities, stale engine state between inferences and deep graphs are not sampled.",
 [S+"tpg/tpgExecutionEngine.cpp", S+"program/programExecutionEngine.cpp"],
 [("bid selection", S+"tpg/tpgExecutionEngine.cpp evaluateTeam/evaluateEdge"), ("path construction", S+"tpg/tpgExecutionEngine.cpp executeFromRoot")],
 [], ["executeFromRoot result", "archive recordings of each bid"])

prop("C04", "Program results ignore introns, copies and history",
 "Executing a program returns what running all its lines in order from zeroed registers leaves in the first register, whatever was executed before, each operand being read at its address modulo the number of addresses the source offers for that type. "
 "Lines marked as introns never influence a result, so marking, clearing marks, removing the marked lines or copying a program changes no result. "
 "Two programs reported as having identical behaviour return equal results on all data, and a copied program shares no mutable line or constant with its original.",
 ["programs", "inputs"], "every program over every environment, every data content, every execution order",
 "Tests use one hand-written program and one environment; intron analysis bugs only show on particular def/use chains across overlapping (array) register operands.",
 [S+"program/program.cpp", S+"program/programEngine.cpp", S+"program/programExecutionEngine.cpp", S+"program/line.cpp", S+"environment.cpp", I+"instructions/lambdaInstruction.h"],
 [("backward liveness", S+"program/program.cpp identifyIntrons"), ("register reset, intron skipping", S+"program/programExecutionEngine.cpp, "+S+"program/programEngine.cpp")],
 [("lines, intron flags, constants", "a program", I+"program/program.h")], ["executeProgram result", "line and constant getters"])

prop("C05", "Mutated programs stay valid, bounded and type-correct",
 "Any sequence of random initialisations and mutations yields programs whose length stays between one line and the configured maximum, whose every line has an existing instruction, destination and data source with operands of the type the instruction expects, and whose constants stay in the configured interval when they are drawn. "
 "A single mutation that reports success made exactly its change (a deletion removes one line, an insertion adds one, a swap exchanges two, an alteration touches at most one line in one place), one that reports failure changed nothing, and after a compound mutation that reports a change the intron marks are those of the new program.",
 ["histories", "configurations", "programs"], "every mutation sequence, environment and parameter set",
 "Tests apply each mutation with one seed to one program; rejected draws and boundary lengths occur only for particular draws.",
 [S+"mutator/programMutator.cpp", S+"mutator/lineMutator.cpp", S+"program/line.cpp", S+"environment.cpp"],
 [("operand correction", S+"mutator/lineMutator.cpp"), ("length guards", S+"mutator/programMutator.cpp")],
 [], ["program before/after each mutator call and its return value"])

prop("C06", "The archive is a bounded FIFO with faithful data snapshots",
 "The archive holds exactly the most recent recordings, in recording order and never more than its capacity, each with the program, the data hash and the result it was given. "
 "It keeps one private snapshot of the data for every data hash still referenced by a recording and none for others, and a snapshot still hashes to its key whatever happens afterwards to the live data.",
 ["histories", "inputs"], "every sequence of recordings, forced or probabilistic, of clears, and of changes to the live data",
 "Tests fill one archive slightly past its capacity once; eviction of interleaved hashes and programs is not sampled.",
 [S+"archive.cpp", I+"archive.h"],
 [("eviction and reference scan", S+"archive.cpp addRecording"), ("deep copy", S+"archive.cpp addRecording, data handlers clone()")],
 [("recordings, dataHandlers, recordingsPerProgram", "archive content", I+"archive.h")], ["archive getters after every call"])

prop("C07", "Novelty verdicts agree with the archive, and offspring are novel",
 "A set of results indexed by archived data is declared unique exactly when no archived program has at least one common data hash and all its common recordings within the tolerance of those results. "
 "When a population step on a graph with at least one root team creates a new or modified program while the archive is not empty, the program it finally keeps is unique with respect to the archive. Recordings of different programs are never confused, even after one of them was destroyed.",
 ["histories", "inputs"], "every archive content, candidate result map and tolerance",
 "Tests check a few maps against a 3-recording archive; partial overlaps, exact-tolerance boundaries and evicted programs are not covered.",
 [S+"archive.cpp", S+"mutator/tpgMutator.cpp"],
 [("uniqueness scan", S+"archive.cpp areProgramResultsUnique"), ("mutate-until-unique loop", S+"mutator/tpgMutator.cpp mutateProgramBehaviorAgainstArchive")],
 [], ["areProgramResultsUnique", "programs of new edges after populate"])

prop("C08", "Data handlers: faithful views, content hashes and frozen copies",
 "A data source returns for every supported type and address exactly the current values of the wrapped data (elements, contiguous sub-arrays, two-dimensional blocks), with the number of addresses matching the valid ones, and the location it reports as used covers exactly the elements read. "
 "Its hash always reflects its current content: equal content gives the same hash, any write, reset, assignment or re-pointing that changes content changes it, and a view onto external data notices external writes once its cached hash is invalidated. A view without data refuses access. "
 "A clone keeps identity, hash and content at cloning time and is unaffected by later changes to the original.",
 ["inputs", "histories"], "every shape, address, type and sequence of reads, writes, assignments, resets and clones",
 "Tests sample a few addresses and one write per handler; hash caching across all mutators and all block shapes is not enumerated.",
 [I+"data/arrayWrapper.h", I+"data/array2DWrapper.h", I+"data/primitiveTypeArray.h", I+"data/primitiveTypeArray2D.h", I+"data/pointerWrapper.h", I+"data/constantHandler.h", S+"data/dataHandler.cpp"],
 [("hash invalidation", I+"data/primitiveTypeArray.h, "+I+"data/arrayWrapper.h"), ("address space", I+"data/arrayWrapper.h getAddressSpace/getAddressesAccessed")],
 [("data, cachedHash, invalidCachedHash", "content and memo", I+"data/dataHandler.h")], ["getDataAt, getHash, getAddressSpace, getAddressesAccessed, clone"])

prop("C09", "Parallel training equals sequential training under every schedule",
 "For a copyable environment, training with any number of threads gives, at every generation and for every interleaving of the workers, the same evaluation results, the same archive content and order, the same graph and the same best policy as sequential training with the same seed. "
 "Every root is evaluated exactly once per evaluation round, each worker uses its own copy of the environment, and evaluation always terminates.",
 ["schedules", "configurations", "histories"], "all worker interleavings, thread counts, archive sizes and generations",
 "Tests run one or two thread counts under whatever schedule occurs; a lost job, an archive merged out of order or a shared environment shows only under particular schedules.",
 [S+"learn/parallelLearningAgent.cpp", S+"learn/learningAgent.cpp", S+"mutator/tpgMutator.cpp"],
 [("job queue under a mutex, per-job seeds and archives, ordered merge", S+"learn/parallelLearningAgent.cpp"), ("per-program seeds", S+"mutator/tpgMutator.cpp mutateNewProgramBehaviorsParallel")],
 [], ["results, archive and graph after each generation", "environment calls per copy"])

prop("C10", "Training is a deterministic function of seed and parameters",
 "Two agents given the same seed, parameters, instruction set and environment go through identical generations: same graphs, same evaluations with the same environment seeds, same scores, whatever other agents ran before. "
 "Initialising an agent again with the same seed restarts it exactly like a fresh agent, with no result, best policy, score or archived data left from before.",
 ["histories", "configurations"], "every training history before and after a (re-)initialisation",
 "Tests train once from a fresh agent with fixed golden numbers; re-initialisation and interleaved agents are not compared.",
 [S+"learn/learningAgent.cpp", S+"learn/adversarialLearningAgent.cpp", S+"mutator/rng.cpp", I+"mutator/deterministicRandom.h", S+"mutator/tpgMutator.cpp"],
 [("init resets", S+"learn/learningAgent.cpp init"), ("generation-derived seeds", S+"learn/learningAgent.cpp makeJob/trainOneGeneration")],
 [], ["per-generation graph, scores, environment reset seeds"])

prop("C11", "Evaluations respect budgets, modes and averaging",
 "Evaluating a root resets the environment once per configured iteration with the evaluation mode, the iteration and the generation number, performs at most the configured number of actions and stops as soon as the environment is terminal, every action being the one chosen by the policy; the result is the mean score over the iterations. "
 "Within a generation all policies get the same environment seed for the same iteration, and different iterations get different seeds. "
 "In training, results accumulate over generations as the evaluation-count weighted mean until the configured maximum number of evaluations, after which the root is not evaluated again and keeps its result; validation never alters the training records. "
 "Merging evaluation results is an order-independent weighted mean (also per class), adds the evaluation counts, refuses results of different kinds and never turns valid results into an undefined one.",
 ["histories", "configurations", "inputs"], "every parameter set, generation count, mode and environment behaviour",
 "Tests check one or two parameter sets with an environment of fixed length; exact budget boundaries across generations are not explored.",
 [S+"learn/learningAgent.cpp", S+"learn/evaluationResult.cpp", S+"learn/adversarialEvaluationResult.cpp", S+"learn/classificationEvaluationResult.cpp", I+"learn/classificationLearningAgent.h"],
 [("evaluation loop", S+"learn/learningAgent.cpp evaluateJob"), ("skip rule", S+"learn/learningAgent.cpp isRootEvalSkipped"), ("weighted mean", S+"learn/evaluationResult.cpp operator+=")],
 [("resultsPerRoot", "training records", I+"learn/learningAgent.h")], ["environment call log", "evaluation results"])

prop("C12", "Selection removes exactly the worst roots and keeps the best record",
 "After each generation the number of removed roots is the configured ratio of the configured number of roots (never more than there are removable ones), the removed ones are team roots with the lowest results, and actions and non-root vertices are never removed by selection. "
 "Evaluation records never mention a vertex that left the graph. "
 "The recorded best policy is a vertex of the graph (a root when it is recorded), it is replaced only by a policy with at least its score or when it left the graph, and its recorded score is at least that of every surviving root evaluated since. The reported best score of a generation is the highest of that generation, and keeping the best policy leaves exactly the sub-graph of that policy.",
 ["histories", "inputs", "configurations"], "every score history, tie pattern, deletion ratio and population",
 "Tests run few generations and check counts; which roots survive under ties, preserved actions or vanished best roots depends on score histories that are not sampled.",
 [S+"learn/learningAgent.cpp"],
 [("sorted removal", S+"learn/learningAgent.cpp decimateWorstRoots"), ("record maintenance", S+"learn/learningAgent.cpp updateEvaluationRecords/updateBestScoreLastGen"), ("keepBestPolicy", S+"learn/learningAgent.cpp")],
 [("resultsPerRoot, bestRoot", "records", I+"learn/learningAgent.h")], ["graph and records around each generation"])

prop("C13", "Adversarial tournaments are complete, fair and use live policies",
 "In an adversarial training every root of the generation plays, as the studied policy, every champion team in every position, exactly the configured number of agents takes part in every match, and agents act in turn with their own policy. "
 "The result of a root is the evaluation-weighted mean of the scores it obtained at the positions it held as studied policy (all positions when none is singled out). "
 "Champions are always vertices of the current graph: any roots at first, then policies among the best of the last evaluation round; no match uses a policy that was removed.",
 ["histories", "configurations", "schedules"], "every agent count, champion pool, deletion ratio, score history and thread count",
 "Tests check one job list shape for one configuration; champions that disappear or degenerate deletion ratios are not covered.",
 [S+"learn/adversarialLearningAgent.cpp", S+"learn/adversarialJob.cpp", S+"learn/adversarialEvaluationResult.cpp"],
 [("champion selection", S+"learn/adversarialLearningAgent.cpp evaluateAllRoots"), ("job creation", S+"learn/adversarialLearningAgent.cpp makeJobs")],
 [("champions", "opponents", I+"learn/adversarialLearningAgent.h")], ["jobs, environment call log, results"])

prop("C14", "Classification scores are exact F1 and selection keeps class experts",
 "For any sequence of guesses, the reported score is the mean over classes of the per-class F1 computed from the confusion counts since the last reset. "
 "Classification selection keeps the number of roots that is left when the configured share (rounded down) of them is removed: the best roots overall plus, for every class, the configured share of the best roots for that class, never removes actions, and removes the others.",
 ["inputs", "histories"], "every confusion history, score table with ties and deletion ratio",
 "Tests use one confusion table and a single decimation; ties, empty classes and small populations are not explored.",
 [S+"learn/classificationLearningEnvironment.cpp", I+"learn/classificationLearningAgent.h", S+"learn/classificationEvaluationResult.cpp"],
 [("F1", S+"learn/classificationLearningEnvironment.cpp"), ("class-wise survivors", I+"learn/classificationLearningAgent.h decimateWorstRoots")],
 [], ["getScore, getScorePerClass, graph after decimation"])

prop("C15", "A graph exported to a file and imported back is the same policy set",
 "Exporting any graph (whose actions have distinct identifiers) and importing the file in an equal environment gives a graph with the same roots, teams, actions and edges in the same evaluation order, the same program lines and constants, the same sharing of programs, and hence the same decisions on all data. "
 "Exporting the sub-graph of a vertex keeps exactly what is reachable from it, exporting never modifies the graph, and several exports by the same exporter stay importable.",
 ["programs", "histories", "inputs"], "every evolved graph and edit history between exports",
 "Tests compare one golden file and import it; shared programs, re-exports after edits and long programs are not covered.",
 [S+"file/tpgGraphDotExporter.cpp", S+"file/tpgGraphDotImporter.cpp"],
 [("identifiers and sharing", S+"file/tpgGraphDotExporter.cpp"), ("line parser", S+"file/tpgGraphDotImporter.cpp")],
 [], ["graph before export vs after import"])

prop("C16", "Generated C code takes the same decisions as the library",
 "For any graph whose instructions are printable and whose action identifiers fit an int, the C source generated for its policy, in either generation mode, compiles and returns for every data content, call after call, the action that executing the policy from the same root in the library would return.",
 ["programs", "inputs", "histories"], "every graph, program, data content and sequence of calls, both generation modes",
 "Tests compile a few hand-made graphs and compare a few inputs; ties, NaN bids, shared programs, introns and repeated calls are not sampled.",
 [S+"codeGen/tpgSwitchGenerationEngine.cpp", S+"codeGen/tpgStackGenerationEngine.cpp", S+"codeGen/programGenerationEngine.cpp", S+"codeGen/tpgGenerationEngine.cpp"],
 [("operand templates", S+"codeGen/programGenerationEngine.cpp"), ("selection code", S+"codeGen/tpgSwitchGenerationEngine.cpp, "+S+"codeGen/tpgStackGenerationEngine.cpp")],
 [], ["inferenceTPG() of the compiled code vs executeFromRoot"])

prop("C17", "Instrumentation counts exactly what inference did, and pruning is safe",
 "After any series of inferences on an instrumented graph, also from several threads, each vertex's and edge's counters equal the number of times it was visited, respectively evaluated and followed, since the last reset, the trace history lists every inference in order, and instrumenting never changes a decision. "
 "Removing the unused parts removes exactly the vertices never visited and the edges never followed, so replaying the inferences made since the reset gives the same decisions.",
 ["histories", "schedules", "inputs"], "every graph and inference history, including concurrent ones",
 "Tests check counters after one or two inferences on one graph.",
 [S+"tpg/instrumented/tpgExecutionEngineInstrumented.cpp", S+"tpg/instrumented/tpgInstrumentedFactory.cpp", S+"tpg/instrumented/tpgVertexInstrumentation.cpp", S+"tpg/instrumented/tpgEdgeInstrumented.cpp"],
 [("counters", S+"tpg/instrumented/tpgExecutionEngineInstrumented.cpp"), ("pruning", S+"tpg/instrumented/tpgInstrumentedFactory.cpp clearUnusedTPGGraphElements")],
 [], ["counter getters", "traces before/after pruning"])

prop("C18", "Policy and execution statistics equal their definitions",
 "The statistics computed for a policy after clear() (numbers of teams, actions, programs, lines, introns, instruction and data uses, depth distribution) equal the counts obtained by walking the policy, each distinct team and program being analysed once, also when the graph is cyclic. "
 "The execution statistics (average evaluated teams, programs, lines - introns included - and instruction executions per inference, and the distributions over traces), read from the accessors or from the exported JSON file, equal the values recomputed from the inferences actually made from roots since the counters were reset, on an acyclic graph.",
 ["programs", "histories", "inputs"], "every policy and inference history, including repeated use of the same analyser",
 "Tests check one fixed policy.",
 [S+"tpg/policyStats.cpp", S+"tpg/instrumented/executionStats.cpp"],
 [("policy walk", S+"tpg/policyStats.cpp"), ("averages and trace statistics", S+"tpg/instrumented/executionStats.cpp")],
 [], ["public statistics after analysis"])

prop("C19", "The cycle detector reports a cycle exactly when there is one",
 "Run on any graph, the cycle-detection logger reports a cycle when a directed cycle exists (reachable from a root or not) and reports none when the graph is acyclic, with a single verdict per generation and without changing the graph.",
 ["inputs", "histories"], "every directed graph shape",
 "Tests use two graphs.",
 [S+"log/cycleDetectionLALogger.cpp"],
 [("depth-first search", S+"log/cycleDetectionLALogger.cpp")],
 [], ["logger output"])

prop("C20", "Parameter files round-trip and override only what they name",
 "Writing any learning parameters (finite reals, any integers of their types) to a JSON file and loading it yields the same parameters, real values at the six significant digits the file keeps, whatever the values held before. "
 "Loading a file changes exactly the parameters it names at their documented places (top level, mutation.tpg, mutation.prog) to the values given there, in any order and with comments, and leaves all others unchanged; unknown names and sub-trees are ignored, an ill-formed file (even one cut short) changes nothing, and a missing file is refused with an exception and no change.",
 ["inputs", "configurations"], "every parameter assignment, subset of parameters and file content",
 "Tests read two fixed files.",
 [S+"file/parametersParser.cpp"],
 [("key table", S+"file/parametersParser.cpp setParameterFromString"), ("tree walk", S+"file/parametersParser.cpp setAllParamsFrom"), ("writer", S+"file/parametersParser.cpp writeParametersToJson")],
 [], ["parameter structure before/after", "content of the file written"])

prop("C21", "Loggers are told every step of a training, once, in order and truthfully",
 "Every logger attached to a learning agent is told each step of each generation exactly once, in attachment order and in the order start, population, evaluation, selection, validation (exactly when enabled), end, with the generation number and the results of every root of that moment; attaching loggers never changes a training. "
 "The basic logger prints one row per generation with the generation number, the number of vertices after population, minimum, average and maximum of the evaluation (and validation) results to two decimals and the durations of those steps; the policy logger describes the best root exactly when it is another one than before. "
 "train() runs generations from 0 until the configured number or until the stop flag is raised, finishing the generation under way, and returns how many it ran.",
 ["histories", "schedules"], "every training history, set of loggers and moment of raising the stop flag, for every kind of agent",
 "Tests check the text of one logger callback at a time on constant results.",
 [S+"learn/learningAgent.cpp", S+"log/laBasicLogger.cpp", S+"log/laPolicyStatsLogger.cpp", S+"log/laLogger.cpp"],
 [("notifications", S+"learn/learningAgent.cpp trainOneGeneration"), ("table", S+"log/laBasicLogger.cpp"), ("best root descriptions", S+"log/laPolicyStatsLogger.cpp"), ("training loop and progress bar", S+"learn/learningAgent.cpp train")],
 [], ["logger notifications", "logger output", "return value and progress output of train()"])

prop("C22", "Random draws are unbiased, within bounds and reproducible from a seed",
 "A generator seeded with a value yields, on every platform, draws determined by the 64-bit Mersenne Twister seeded with that value. An integer draw lies within its inclusive bounds, negative and extreme ones included, and is the lower bound plus the remainder of the first raw number outside the incomplete last block of the range, so no value is favoured; a range of one value uses no raw number. "
 "A real draw lies within its bounds at the position of the next raw number in the raw range. A copy of a generator continues from the same state independently of the original, and setting the seed restarts the sequence whatever was drawn before.",
 ["inputs", "histories"], "every seed, pair of bounds and history of draws, copies and re-seedings",
 "Tests check a few draws from one seed with small bounds.",
 [S+"mutator/rng.cpp", "gegelatilib/include/mutator/rng.h", "gegelatilib/include/mutator/deterministicRandom.h"],
 [("draws", S+"mutator/rng.cpp getUnsignedInt64, getInt32, getDouble"), ("adaptation of the engine to a range", "gegelatilib/include/mutator/deterministicRandom.h _Rng_from_urng, uniform_int::_Eval"), ("copies", "gegelatilib/include/mutator/rng.h")],
 [], ["values drawn", "raw numbers of the standard engine"])

prop("C23", "Environments, programs and engines accept exactly what fits, or change nothing",
 "For any instruction set, data sources and numbers of registers and constants, an environment keeps, in order, exactly the instructions all of whose operands some source (registers, constants when there are any, data sources) can provide, lists registers, constants and data sources in this order, and tells the largest address space, number of operands and number of bits of each part of a line accordingly; an environment in which no program could be built is refused. "
 "A line attribute outside what the environment offers is refused when checking is asked (an operand beyond the number of operands always), and inserting, removing, swapping and clearing lines act as on a list of lines with their intron marks; a refused edit leaves the program unchanged. "
 "An execution engine accepts exactly the programs whose environment has the data sources it executes on (same identities, same order) and exactly the replacement sources that match, and after refusing any it goes on with the program, constants and sources it had.",
 ["inputs", "configurations", "histories"], "every instruction set, list of sources, edit history and sequence of programs and sources given to an engine",
 "Tests check one environment and one refusal of each kind, and not what is left after a refusal.",
 [S+"environment.cpp", S+"program/line.cpp", S+"program/program.cpp", S+"program/programEngine.cpp"],
 [("filter and description", S+"environment.cpp filterInstructionSet, computeLargestAddressSpace, computeLineSize"), ("lines", S+"program/line.cpp setOperand, setInstructionIndex, setDestinationIndex"), ("list of lines", S+"program/program.cpp addNewLine, removeLine, swapLines, clearIntrons"), ("compatibility", S+"program/programEngine.cpp setProgram; gegelatilib/include/program/programEngine.h setDataSources")],
 [], ["accessors of environments, programs and lines", "exceptions and return values", "results of executions"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if sch:
    for p in P: jsonschema.validate(p, sch)
print(len(P), "properties")
