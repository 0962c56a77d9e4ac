---------------------------- MODULE MonoGraphs -----------------------------
EXTENDS MonoDesign
I == 1..5
U == {<<>>, <<3>>, <<4>>, <<3, 4>>, <<4, 3>>, <<5>>, <<4, 4>>, <<3, 5>>}
G == {[uses |-> u, roots |-> <<1, 2>>] : u \in {f \in [I -> U] : f[5] = <<>> /\ f[4] \in {<<>>, <<5>>} /\ f[3] \in {<<>>, <<4>>, <<5>>, <<3>>}}}
W1 == {"w1"}
W2 == {"w1", "w2"}
W3 == {"w1", "w2", "w3"}
=============================================================================
