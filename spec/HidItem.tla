------------------------------ MODULE HidItem ------------------------------
(***************************************************************************)
(* HID 1.11 section 6.2.2: short items and their byte encoding.            *)
(* An item is <<kind, tag, hi, lo>>; kind 0 main, 1 global, 2 local.       *)
(***************************************************************************)
EXTENDS W32

Main == 0
Global == 1
Local == 2

\* The tags HID 1.11 assigns.
MainTags   == {8, 9, 10, 11, 12}
GlobalTags == 0..11
LocalTags  == {0, 1, 2, 3, 4, 5, 7, 8, 9, 10}
Assigned(kind, tag) == \/ kind = Main /\ tag \in MainTags
                       \/ kind = Global /\ tag \in GlobalTags
                       \/ kind = Local /\ tag \in LocalTags
ItemTypes == ({Main} \X MainTags) \cup ({Global} \X GlobalTags) \cup ({Local} \X LocalTags)

\* Bounds and unit exponent are signed (6.2.2.7).
Signed(kind, tag) == kind = Global /\ tag \in 1..5
\* Items that carry no data: End Collection, Push, Pop.
Bare(kind, tag) == (kind = Main /\ tag = 12) \/ (kind = Global /\ tag \in {10, 11})
\* The usages, whose 16-bit form takes the page from the global state.
IsUsageTag(tag) == tag \in {0, 1, 2}
IsData(it) == it[1] = Main /\ it[2] \in {8, 9, 11}

Item(kind, tag, w) == <<kind, tag, w[1], w[2]>>
Val(it) == <<it[3], it[4]>>

\* Items in order: by kind, then tag, then number.
Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ (IF Signed(a[1], a[2]) THEN SLt(Val(a), Val(b)) ELSE ULt(Val(a), Val(b)))
SizeCode(n) == CASE n = 0 -> 0 [] n = 1 -> 1 [] n = 2 -> 2 [] n = 4 -> 3
PayLen(code) == CASE code = 0 -> 0 [] code = 1 -> 1 [] code = 2 -> 2 [] code = 3 -> 4
Prefix(kind, tag, n) == tag * 16 + kind * 4 + SizeCode(n)

EncodeAs(it, n) == <<Prefix(it[1], it[2], n)>> \o LE(Val(it), n)

\* Payload lengths that read back as the value.
Fits(it, n) == LET b == LE(Val(it), n)
               IN  FromLE(b, 1, n, Signed(it[1], it[2])) = Val(it)
Shortest(it) == IF Fits(it, 1) THEN 1 ELSE IF Fits(it, 2) THEN 2 ELSE 4
\* The encodings the tools may emit: the shortest, where a zero value
\* may be left out altogether.
Canonical(it) == {EncodeAs(it, Shortest(it))} \cup
                 (IF Val(it) = Z32 THEN {EncodeAs(it, 0)} ELSE {})

(***************************************************************************)
(* Decoding.  The state of the decoder machine is [p, items, bad]: p is    *)
(* the position of the next unread byte.                                   *)
(***************************************************************************)
DecInit == [p |-> 1, items |-> <<>>, bad |-> ""]
DecDone(b, s) == s.bad # "" \/ s.p > Len(b)
DecStep(b, s) ==
    LET h    == b[s.p]
        tag  == h \div 16
        kind == (h \div 4) % 4
        n    == PayLen(h % 4)
    IN  IF ~Assigned(kind, tag) THEN [s EXCEPT !.bad = "unassigned"]
        ELSE IF s.p + n > Len(b) THEN [s EXCEPT !.bad = "truncated"]
        ELSE [p |-> s.p + n + 1,
              items |-> Append(s.items, Item(kind, tag, FromLE(b, s.p + 1, n, Signed(kind, tag)))),
              bad |-> ""]
\* A step at every position where an item starts (a fold, so that streams can be long).
Decode(b) == FoldLeft(LAMBDA s, i : IF DecDone(b, s) \/ s.p # i THEN s ELSE DecStep(b, s), DecInit, [i \in 1..Len(b) |-> i])
WellFormed(b) == Decode(b).bad = ""
Items(b) == Decode(b).items

\* Every item of a byte stream is in canonical form.
CanonAt(b, p) ==
    LET n == PayLen(b[p] % 4)
    IN  p + n <= Len(b) /\ LET c == SubSeq(b, p, p + n)
                               d == Decode(c)
                           IN  d.bad = "" /\ c \in Canonical(d.items[1])
IsCanonical(b) == FoldLeft(LAMBDA s, i : IF ~s.ok \/ s.p # i THEN s ELSE [p |-> i + PayLen(b[i] % 4) + 1, ok |-> CanonAt(b, i)],
                           [p |-> 1, ok |-> TRUE], [i \in 1..Len(b) |-> i]).ok

\* A byte string of a stream, every item in its shortest form with payload
\* (bare items without).
Enc1(it) == IF Bare(it[1], it[2]) THEN EncodeAs(it, 0) ELSE EncodeAs(it, Shortest(it))
EncodeAll(items) == FoldLeft(LAMBDA acc, it : acc \o Enc1(it), <<>>, items)
=============================================================================
