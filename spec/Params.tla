------------------------------- MODULE Params -------------------------------
(* Parameter files (C20).  A parameter structure is a function from names to *)
(* values; a file is "missing", "ill" (not JSON) or a set of places with     *)
(* values.  A place is <<group, name>>; the groups of the documented format  *)
(* are the top of the file, its mutation.tpg and its mutation.prog sub-trees.*)
EXTENDS Integers, Sequences, FiniteSets

\* the value named for place q in file content c (a function of places)
Override(cur, c, GroupOf) ==
  [n \in DOMAIN cur |-> IF <<GroupOf[n], n>> \in DOMAIN c THEN c[<<GroupOf[n], n>>] ELSE cur[n]]

\* what a file keeps of a structure: every parameter at its documented place,
\* real values at the precision of the file
Written(cur, GroupOf, Kept(_, _)) ==
  [q \in {<<GroupOf[n], n>> : n \in DOMAIN cur} |-> Kept(q[2], cur[q[2]])]

TopNames == {"archiveSize", "archivingProbability", "doValidation", "maxNbActionsPerEval",
             "maxNbEvaluationPerPolicy", "nbGenerations", "nbIterationsPerJob",
             "nbIterationsPerPolicyEvaluation", "nbProgramConstant", "nbRegisters", "nbThreads",
             "ratioDeletedRoots"}
TpgNames == {"forceProgramBehaviorChangeOnMutation", "maxInitOutgoingEdges", "maxOutgoingEdges",
             "nbActions", "nbRoots", "pEdgeAddition", "pEdgeDeletion", "pEdgeDestinationChange",
             "pEdgeDestinationIsAction", "pProgramMutation"}
ProgNames == {"maxConstValue", "maxProgramSize", "minConstValue", "pAdd", "pConstantMutation",
              "pDelete", "pMutate", "pSwap"}
RealNames == {"archivingProbability", "ratioDeletedRoots", "pEdgeAddition", "pEdgeDeletion",
              "pEdgeDestinationChange", "pEdgeDestinationIsAction", "pProgramMutation", "pAdd",
              "pConstantMutation", "pDelete", "pMutate", "pSwap"}
AllNames == TopNames \union TpgNames \union ProgNames
Group == [n \in AllNames |-> IF n \in TopNames THEN "top" ELSE IF n \in TpgNames THEN "mutation.tpg" ELSE "mutation.prog"]
=============================================================================
