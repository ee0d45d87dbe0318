----------------------------- MODULE MC_Factory -----------------------------
(* Every factory asked for every name: element names of the schema, their          *)
(* variations and names of other factories.                                       *)
EXTENDS Load
Names == UNION {{k.x : k \in {Schema[t].kids[j] : j \in DOMAIN Schema[t].kids}} : t \in DOMAIN Schema} \cup DOMAIN Schema
         \cup UNION {Factory[f] : f \in DOMAIN Factory}
Odd == {"", " ", "true", "false", "TRUE", "treeModel", "treemodel", "Tree", "TreeModel ", " TreeModel", "MODEL-ELEMENT", "predicate", "apply", "APPLY", "Applys", "Model",
        "Expression", "Predicate", "Distribution", "inlineTable", "Inlinetable", "decisionTree", "regression", "simplePredicate", "pmml:TreeModel", "TriangularDistribution", "normContinuous"}
VARIABLES f, n
Init == f \in DOMAIN Factory /\ n \in Names \cup Odd
Next == UNCHANGED <<f, n>>
Spec == Init /\ [][Next]_<<f, n>>
\* a name is known to the factories of the groups it belongs to, under its own kind
Own == Makes(f, n) \in {n, "-"} /\ (Makes(f, n) = n => n \in DOMAIN Schema)
Emit == PrintT("@@" \o ToJson([factory |-> f, name |-> n, makes |-> Makes(f, n)]))
=============================================================================
