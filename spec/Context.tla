------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* Contexts: functions from keys to values.  They travel to the worker as    *)
(* one string in its environment, entries separated by ":", keys and values  *)
(* by "=".  Here strings are sequences of characters and "%" escapes the     *)
(* characters that have a meaning ("%" included).                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Esc(c) == CASE c = "=" -> <<"%", "3", "D">>
            [] c = ":" -> <<"%", "3", "A">>
            [] c = "%" -> <<"%", "2", "5">>
            [] OTHER -> <<c>>
RECURSIVE Enc(_)
Enc(s) == IF s = <<>> THEN <<>> ELSE Esc(Head(s)) \o Enc(Tail(s))
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN <<>>
          ELSE IF Head(s) = "%"
               THEN <<CASE SubSeq(s, 2, 3) = <<"3", "D">> -> "="
                        [] SubSeq(s, 2, 3) = <<"3", "A">> -> ":"
                        [] SubSeq(s, 2, 3) = <<"2", "5">> -> "%">> \o Dec(SubSeq(s, 4, Len(s)))
               ELSE <<Head(s)>> \o Dec(Tail(s))

RECURSIVE Split(_, _)
Split(s, sep) == IF sep \notin Range(s) THEN <<s>>
                 ELSE LET i == CHOOSE i \in DOMAIN s : s[i] = sep /\ \A j \in 1..(i - 1) : s[j] # sep
                      IN  <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), sep)

(* entries: a sequence of <<key, value>> with distinct keys *)
RECURSIVE ToEnv(_)
ToEnv(es) == IF es = <<>> THEN <<>>
             ELSE LET one == Enc(es[1][1]) \o <<"=">> \o Enc(es[1][2])
                  IN  IF Len(es) = 1 THEN one ELSE one \o <<":">> \o ToEnv(Tail(es))
FromEnv(s) == [i \in DOMAIN Split(s, ":") |->
                  LET kv == Split(Split(s, ":")[i], "=") IN <<Dec(kv[1]), Dec(kv[2])>>]
=============================================================================
