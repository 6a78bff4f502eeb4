------------------------------- MODULE FormatRel -------------------------------
(* names, extensions and the registered classes (tokens) *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
ExtOf == [A |-> ".x", B |-> ".x", C |-> ".y", GMSH |-> ".msh", VTK |-> ".vtu"]
Base == [GMSH |-> [reader |-> "gmsh", writer |-> ""], VTK |-> [reader |-> "", writer |-> "vtk"]]
Put(reg, k, n, t) == IF n \in DOMAIN reg THEN [reg EXCEPT ![n][k] = t]
                     ELSE [m \in DOMAIN reg \cup {n} |-> IF m = n THEN [reader |-> IF k = "reader" THEN t ELSE "", writer |-> IF k = "writer" THEN t ELSE ""] ELSE reg[m]]
RECURSIVE After(_, _)
After(reg, h) == IF h = <<>> THEN reg ELSE After(Put(reg, h[1][1], h[1][2], h[1][3]), Tail(h))
\* the class a command uses: "" means it is refused
Used(reg, f, x, c) ==
  LET S == IF f # "" THEN {f} \cap DOMAIN reg ELSE {n \in DOMAIN reg : ExtOf[n] = x}
  IN IF Cardinality(S) # 1 THEN "" ELSE reg[CHOOSE n \in S : TRUE][IF c = "read" THEN "reader" ELSE "writer"]
=============================================================================
