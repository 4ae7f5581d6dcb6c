-------------------------------- MODULE History --------------------------------
(* Operations on shared objects within one process.                             *)
(* An object holds an input (its data) and keeps a derived value, with what it   *)
(* was derived for, to be used again.  An operation has an argument, or none:     *)
(* then the default.  Its answer is a reference to a cell of the heap.            *)
(* The right answer depends on the input and the argument alone: 10*input+arg.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Args,        \* arguments, positive
          Objs,        \* objects
          L,           \* operations of a history
          NoKey,       \* what is kept is used whatever it was derived for       (wrong)
          InPlace,     \* an operation works on the input itself                  (wrong)
          Sticky,      \* an argument once given is the default afterwards        (wrong)
          Alias,       \* an operation writes over the answer it gave before      (wrong)
          Mixed        \* what is kept does not belong to one object              (wrong)
VARIABLES input, kept, dflt, heap, answers
vars == <<input, kept, dflt, heap, answers>>
Default == 1
None == 0
Fresh(o, a) == 100 * o + 10 * 1 + (IF a = None THEN Default ELSE a)
Init == /\ input = [o \in Objs |-> 1] /\ kept = [o \in Objs |-> [arg |-> None, cell |-> 0]]
        /\ dflt = Default /\ heap = <<>> /\ answers = <<>>
Slot(o) == IF Mixed THEN CHOOSE p \in Objs : \A q \in Objs : p <= q ELSE o
Op(o, given) ==
    LET a == IF given = None THEN dflt ELSE given
        k == kept[Slot(o)]
        hit == k.cell # 0 /\ (NoKey \/ k.arg = a)
        v == 100 * o + 10 * input[o] + a
        cell == IF hit THEN k.cell ELSE IF Alias /\ k.cell # 0 THEN k.cell ELSE Len(heap) + 1
    IN /\ heap' = IF hit THEN heap ELSE IF cell <= Len(heap) THEN [heap EXCEPT ![cell] = v] ELSE Append(heap, v)
       /\ kept' = [kept EXCEPT ![Slot(o)] = [arg |-> a, cell |-> cell]]
       /\ answers' = Append(answers, [obj |-> o, given |-> given, cell |-> cell])
       /\ input' = IF InPlace /\ a = 2 THEN [input EXCEPT ![o] = @ + 1] ELSE input
       /\ dflt' = IF Sticky THEN a ELSE dflt
Next == Len(answers) < L /\ \E o \in Objs, a \in Args \union {None} : Op(o, a)
Spec == Init /\ [][Next]_vars
\* every answer, also one given long ago, is that of a process that did nothing else
Independent == \A i \in 1 .. Len(answers) : heap[answers[i].cell] = Fresh(answers[i].obj, answers[i].given)
Untouched == \A o \in Objs : input[o] = 1
==============================================================================
