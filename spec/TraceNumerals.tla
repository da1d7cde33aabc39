------------------------------ MODULE TraceNumerals ------------------------------
(***************************************************************************)
(* Conformance of the numeric helpers (common/math.go, common/common.go,    *)
(* common/env.go) and of the printed form of tables.                        *)
(*                                                                          *)
(* kind "logs": numbers in base 2, their two logarithms.                     *)
(* kind "minmax": pairs of integers, their minimum and maximum.              *)
(* kind "print": elements, their canonical numerals, and those printed, each *)
(*   on its own and as entries of lists.                                     *)
(* kind "ints": integers, and those printed as entries of a list.            *)
(* kind "convert": unsigned integers in base 10 and the elements they gave;  *)
(*   elements and the generic values they gave; dimensions of random arrays. *)
(* kind "env": parameters and what was read.                                 *)
(***************************************************************************)
EXTENDS Numerals, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, outcome

K == Cases[c]
Say(v, info) == outcome' = v /\ PrintT(<<v, c, info>>)
Decide(ok, info) == Say(IF ok THEN "ACCEPT" ELSE "REJECT", info)
On(kind) == K.kind = kind /\ outcome = "none"

TInit == outcome = "none" /\ c \in DOMAIN Cases

Logs ==
    /\ On("logs")
    /\ LET bad == { i \in DOMAIN K.of : ~ /\ IsNumeral(K.of[i].bits, 2)
                                          /\ K.of[i].floor = Log2FloorOf(K.of[i].bits)
                                          /\ K.of[i].ceil = Log2CeilOf(K.of[i].bits) }
       IN  Decide(bad = {}, <<"logarithms", { K.of[i] : i \in bad }>>)
    /\ UNCHANGED c

MinMax ==
    /\ On("minmax")
    /\ LET bad == { i \in DOMAIN K.of : ~ /\ K.of[i].min = Min(K.of[i].a, K.of[i].b)
                                          /\ K.of[i].max = Max(K.of[i].a, K.of[i].b) }
       IN  Decide(bad = {}, <<"minimum and maximum", { K.of[i] : i \in bad }>>)
    /\ UNCHANGED c

Entry(i) == K.of[i]
Printed ==
    /\ On("print")
    /\ LET Fits(i, r) == PrintsAs(r.neg, r.digits, Entry(i).x, Entry(i).own, Entry(i).opp)
           bad == { i \in DOMAIN K.of : ~Fits(i, Entry(i).printed) }
           lists == { k \in DOMAIN K.lists :
                        ~ /\ Len(K.lists[k].entries) = Len(K.lists[k].which)
                          /\ \A j \in DOMAIN K.lists[k].which : Fits(K.lists[k].which[j], K.lists[k].entries[j]) }
       IN  Decide(bad = {} /\ lists = {} /\ K.after = [i \in DOMAIN K.of |-> Entry(i).x],
                  <<"printed elements", bad, "lists", lists>>)
    /\ UNCHANGED c

Ints ==
    /\ On("ints")
    /\ LET bad == { k \in DOMAIN K.lists : K.lists[k].printed # K.lists[k].values }
       IN  Decide(bad = {}, <<"printed integers", bad>>)
    /\ UNCHANGED c

Convert ==
    /\ On("convert")
    /\ LET bad == { i \in DOMAIN K.of : ~ IsNumeral(K.of[i].digits, 10) \/ K.of[i].x # Read(K.of[i].digits, 10) }
           gen == K.generic = K.values
           dim == { i \in DOMAIN K.random : K.random[i].got # [j \in 1..K.random[i].chunks |-> K.random[i].size] }
           \* a value drawn twice (never, in a field of this size)
           rep == Cardinality(RangeOf(K.drawn)) # Len(K.drawn)
       IN  Decide(bad = {} /\ gen /\ dim = {} /\ ~rep,
                  <<"converted", { K.of[i].digits : i \in bad }, "generic", gen, "dimensions", dim, "repeated", rep>>)
    /\ UNCHANGED c

\* a number is read, or the call panics; a switch is on when the parameter is 1
Read1(u) == IF u.switch THEN ~u.panics /\ u.on = (u.set /\ u.chars = <<"1">>)
            ELSE IF u.set /\ IsInteger(u.chars) THEN ~u.panics /\ u.value = IntegerOf(u.chars)
            ELSE u.panics
Env ==
    /\ On("env")
    /\ LET bad == { i \in DOMAIN K.of : ~Read1(K.of[i]) }
       IN  Decide(bad = {}, <<"parameters", { K.of[i] : i \in bad }>>)
    /\ UNCHANGED c

TNext == Logs \/ MinMax \/ Printed \/ Ints \/ Convert \/ Env
TSpec == TInit /\ [][TNext]_<<c, outcome>>
================================================================================
