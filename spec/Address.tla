------------------------------- MODULE Address -------------------------------
(***************************************************************************)
(* The address a server announces: the host it was given; otherwise the      *)
(* address of the default route, if there is one and connections to it work; *)
(* otherwise the loopback address.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Loopback == "127.0.0.1"
Announced(host, det, works) ==
    IF host # "" THEN host
    ELSE IF det # "" /\ works THEN det ELSE Loopback

(* looking for a free port: so many attempts are allowed, so many fail        *)
PortSearch(tries, no) == IF no < tries THEN "made" ELSE "none"
=============================================================================
