------------------------------ MODULE ContextMC ------------------------------
EXTENDS Context
CONSTANTS MaxLen, MaxEntries
VARIABLES es
Alphabet == {"a", "=", ":", "%"}
Str == UNION { [1..n -> Alphabet] : n \in 0..MaxLen }
Init == es = <<>>
Next == /\ Len(es) < MaxEntries
        /\ \E k \in Str, v \in Str : /\ \A i \in DOMAIN es : es[i][1] # k
                                     /\ es' = Append(es, <<k, v>>)
Spec == Init /\ [][Next]_es
Survives == es # <<>> => FromEnv(ToEnv(es)) = es
=============================================================================
