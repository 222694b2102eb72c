------------------------------- MODULE MCOwn --------------------------------
(***************************************************************************)
(* Who owns what (C30, C32).  Memory is a set of cells with contents.  The *)
(* caller has one buffer, from which objects are made and which he then    *)
(* overwrites and gives back; objects are made, copied, assigned and       *)
(* destroyed.  As the code has it, an object keeps a copy of its input in  *)
(* a cell of its own, and gives the cell back when it is destroyed or      *)
(* given something else.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MAX, EMAX

Texts == {"t1", "t2"}
Slots == {0, 1, 2}
None == "none"
VARIABLES heap,  \* cell -> content
          obj,   \* slot -> its cell, 0 if there is no object
          buf,   \* the caller's cell, 0 if given back
          made,  \* slot -> what it was made from (what the property speaks of)
          h
vars == <<heap, obj, buf, made, h>>

Free(c, f) == [x \in DOMAIN f \ {c} |-> f[x]]
New(f) == CHOOSE c \in 1..(Cardinality(DOMAIN f) + 1) : c \notin DOMAIN f
Alloc(f, c, v) == [x \in DOMAIN f \cup {c} |-> IF x = c THEN v ELSE f[x]]

Init == heap = <<>> /\ obj = [s \in Slots |-> 0] /\ buf = 0 /\ made = [s \in Slots |-> None] /\ h = <<>>
Can == Len(h) < MAX

\* the input is put into a buffer, an object made from it, the buffer
\* overwritten and given back: three steps, of which the last comes at once
\* or later
Give(s, f) == IF obj[s] = 0 THEN f ELSE Free(obj[s], f)
Make(s, t) ==
  /\ Can /\ buf = 0
  /\ LET b  == New(heap)
         f1 == Alloc(heap, b, t)
         f2 == Give(s, f1)
         c  == New(f2)
     IN /\ heap' = Alloc(f2, c, f1[b])
        /\ obj' = [obj EXCEPT ![s] = c]
        /\ buf' = b
  /\ made' = [made EXCEPT ![s] = t]
  /\ h' = Append(h, [op |-> "make", s |-> s, x |-> t])
Spoil == buf # 0 /\ heap' = [heap EXCEPT ![buf] = "ZZ"] /\ UNCHANGED <<obj, buf, made, h>>
GiveBack == buf # 0 /\ heap[buf] = "ZZ" /\ heap' = Free(buf, heap) /\ buf' = 0 /\ UNCHANGED <<obj, made, h>>
\* r onto s; onto itself nothing changes
Assign(s, r, op) ==
  /\ Can /\ buf = 0 /\ obj[r] # 0 /\ (op = "copy" => s # r)
  /\ LET v  == heap[obj[r]]
         f  == Give(s, heap)
         c  == New(f)
     IN IF s = r THEN UNCHANGED <<heap, obj>>
        ELSE heap' = Alloc(f, c, v) /\ obj' = [obj EXCEPT ![s] = c]
  /\ made' = [made EXCEPT ![s] = made[r]]
  /\ UNCHANGED buf
  /\ h' = Append(h, [op |-> op, s |-> s, r |-> r])
Drop(s) ==
  /\ Can /\ buf = 0 /\ obj[s] # 0
  /\ heap' = Free(obj[s], heap) /\ obj' = [obj EXCEPT ![s] = 0]
  /\ made' = [made EXCEPT ![s] = None]
  /\ UNCHANGED buf
  /\ h' = Append(h, [op |-> "drop", s |-> s])
Next == \/ Spoil \/ GiveBack
        \/ \E s \in Slots : \/ \E t \in Texts : Make(s, t)
                            \/ \E r \in Slots : Assign(s, r, "assign") \/ Assign(s, r, "copy")
                            \/ Drop(s)
Spec == Init /\ [][Next]_vars

Live == {s \in Slots : obj[s] # 0}
\* an object never refers to memory that is gone, or that another one owns
NoDangling == \A s \in Live : obj[s] \in DOMAIN heap
Apart == /\ \A s, r \in Live : s # r => obj[s] # obj[r]
         /\ \A s \in Live : obj[s] # buf
\* what it shows is what it was made from
Independent == \A s \in Live : heap[obj[s]] = made[s]
\* no memory is in use but theirs
NoLeak == DOMAIN heap = {obj[s] : s \in Live} \cup (IF buf = 0 THEN {} ELSE {buf})
Emitted == (buf = 0 /\ Len(h) <= EMAX /\ Len(h) > 1 /\ h[1].s = 0 /\ h[1].op = "make") => PrintT("@C " \o ToJson([h |-> h]))
=============================================================================
