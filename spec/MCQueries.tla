------------------------------ MODULE MCQueries ------------------------------
(***************************************************************************)
(* Theorems about Queries, checked on every schedule of at most MaxN       *)
(* sessions with times in the minutes 0..T (all break patterns, adjacent   *)
(* sessions included) and every instant on or between those minutes.       *)
(* The operators of Queries work on runs and by bisection; here they are   *)
(* compared with plain set-theoretic definitions.                          *)
(***************************************************************************)
EXTENDS Queries, TLC
CONSTANTS T, MaxN

At(m) == <<m, 0, 0>>
Sess(d, o, b, e, c) == <<d, At(o), b, e, At(c)>>

(* Sessions opening at or after minute lo.                                 *)
OneFrom(d, lo) ==
       {Sess(d, p[1], None, None, p[2]) : p \in {p \in (lo .. T) \X (lo .. T) : p[1] < p[2]}}
  \cup {Sess(d, p[1], At(p[2]), At(p[3]), p[4]) :
          p \in {p \in (lo .. T) \X (lo .. T) \X (lo .. T) \X (lo .. T) :
                   p[1] < p[2] /\ p[2] < p[3] /\ p[3] < p[4]}}

RECURSIVE SchedsFrom(_, _, _)
SchedsFrom(n, d, lo) ==
    IF n = 0 THEN {<<>>}
    ELSE {<<>>} \cup UNION {{<<s>> \o rest : rest \in SchedsFrom(n - 1, d + (IF Open(s)[1] % 2 = 0 THEN 1 ELSE 3), Close(s)[1] + 1)}
                            : s \in OneFrom(d, lo)}
Scheds == SchedsFrom(MaxN, 10, 0) \ {<<>>}

Instants == {<<m, s, 0>> : m \in -1 .. T + 1, s \in {0, 30}}
Minutes == -1 .. T + 1
Days == 9 .. 20

-----------------------------------------------------------------------------
(* Plain definitions.                                                      *)
MinutesOf(s, V) == {m \in Open(s)[1] .. Close(s)[1] :
                      ~(HasBreak(s) /\ m >= BStart(s)[1] /\ m < BEnd(s)[1]
                        /\ ~(V /\ m = BStart(s)[1]))}
AllM(S, V) == UNION {MinutesOf(S[i], V) : i \in DOMAIN S}
RECURSIVE Expand(_, _)
Expand(R, i) == IF i > Len(R) THEN <<>> ELSE [k \in 1 .. R[i][3] |-> R[i][1] + k - 1] \o Expand(R, i + 1)
SetOf(s) == {s[i] : i \in DOMAIN s}
Increasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
IsListOf(R, M) == LET l == Expand(R, 1) IN Increasing(l) /\ SetOf(l) = M
Maximal(R) == \A i \in 1 .. Len(R) - 1 : R[i][1] + R[i][3] < R[i + 1][1]
MinS(M) == CHOOSE m \in M : \A n \in M : m <= n
MaxS(M) == CHOOSE m \in M : \A n \in M : m >= n
Between(M, a, b) == {m \in M : Le(a, At(m)) /\ Le(At(m), b)}
RECURSIVE Firsts(_, _)
Firsts(M, n) == IF n = 0 \/ M = {} THEN {} ELSE LET m == MinS(M) IN {m} \cup Firsts(M \ {m}, n - 1)
RECURSIVE Lasts(_, _)
Lasts(M, n) == IF n = 0 \/ M = {} THEN {} ELSE LET m == MaxS(M) IN {m} \cup Lasts(M \ {m}, n - 1)

VARIABLE S
Init == S \in Scheds
Next == UNCHANGED S
Spec == Init /\ [][Next]_S

-----------------------------------------------------------------------------
Thm05 ==
    \A t \in Instants :
      /\ IsOpen(S, t, TRUE) = (\E i \in DOMAIN S : Le(Open(S[i]), t) /\ Le(t, Close(S[i])))
      /\ IsOpen(S, t, FALSE) = (\E i \in DOMAIN S : Le(Open(S[i]), t) /\ Le(t, Close(S[i])) /\ ~InBreak(S[i], t))
      \* at whole minutes, open exactly on the trading minutes
      /\ t[2] = 0 => (IsOpen(S, t, FALSE) = (t[1] \in AllM(S, FALSE)))
      /\ IsOpen(S, t, FALSE) => IsOpen(S, t, TRUE)

Thm06V(V) ==
    LET R == Runs(S, V)
        M == AllM(S, V)
    IN  /\ IsListOf(R, M) /\ Maximal(R) /\ Total(R, 1) = Cardinality(M)
        /\ \A a \in Instants, b \in Instants : IsListOf(MinutesInRange(R, a, b), Between(M, a, b))
        \* a session's minutes are its own, and they partition the whole
        /\ \A i \in DOMAIN S : Answer(S, R, <<0, 0>>, <<"minutes_for_session", Day(S[i])>>)[2]
                               = Glue(SessionRuns(S[i], V), 1, <<>>)
        /\ \A i, j \in DOMAIN S : i <= j =>
              IsListOf(Answer(S, R, <<0, 0>>, <<"minutes_for_sessions", Day(S[i]), Day(S[j])>>)[2],
                       UNION {MinutesOf(S[k], V) : k \in i .. j})
        \* windows
        /\ \A t \in Instants, c \in -5 .. 5 :
              LET w == Window(R, t, c)
                  before == {m \in M : Le(At(m), t)}
                  start == MaxS(before)
              IN  IF before = {} \/ Lt(At(MaxS(M)), t) THEN w = Err
                  ELSE /\ w[1] = "runs"
                       /\ c >= 0 => IsListOf(w[2], Firsts({m \in M : m >= start}, c))
                       /\ c < 0  => IsListOf(w[2], Lasts(before, -c))
Thm06 ==
    /\ Thm06V(FALSE) /\ Thm06V(TRUE)
    \* counting agrees with the set of trading minutes
    /\ \A a \in Days, b \in Days :
         IdealCount(S, FromDay(S, a), ToDay(S, b))
           = Cardinality(UNION {MinutesOf(S[k], FALSE) : k \in {k \in DOMAIN S : Day(S[k]) >= a /\ Day(S[k]) <= b}})

(* Not a theorem: what finding F1 breaks.                                   *)
CountMatchesListWithF1 == Total(Runs(S, TRUE), 1) = IdealCount(S, 1, Len(S))

Nearest(X, q, t, after) ==      \* X the candidate minutes
    LET a == Answer(S, Runs(S, FALSE), <<0, 0>>, <<q, t>>)
        C == {m \in X : IF after THEN Lt(t, At(m)) ELSE Lt(At(m), t)}
    IN  IF C = {} THEN a = Err
        ELSE a = <<"ts", At(IF after THEN MinS(C) ELSE MaxS(C))>>
Thm07 ==
    LET O == {Open(S[i])[1] : i \in DOMAIN S}
        C == {Close(S[i])[1] : i \in DOMAIN S}
        M == AllM(S, FALSE)
    IN  \A t \in Instants :
          /\ Nearest(O, "next_open", t, TRUE) /\ Nearest(O, "previous_open", t, FALSE)
          /\ Nearest(C, "next_close", t, TRUE) /\ Nearest(C, "previous_close", t, FALSE)
          /\ Nearest(M, "next_minute", t, TRUE) /\ Nearest(M, "previous_minute", t, FALSE)

Inside(t) == {i \in DOMAIN S : Le(Open(S[i]), t) /\ Le(t, Close(S[i]))}
Thm08 ==
    /\ \A t \in Instants :
         /\ Cardinality(Inside(t)) <= 1
         /\ Inside(t) # {} =>
              LET i == CHOOSE i \in Inside(t) : TRUE IN
              /\ ToSession(S, t, "next") = DayAt(S, i)
              /\ ToSession(S, t, "previous") = DayAt(S, i)
              /\ ToSession(S, t, "none") = (IF InBreak(S[i], t) THEN Err ELSE DayAt(S, i))
              /\ Bulk(S, <<t>>) = <<"days", <<Day(S[i])>>>>
         /\ Inside(t) = {} =>
              /\ LET A == {i \in DOMAIN S : Lt(t, Close(S[i]))}
                 IN  ToSession(S, t, "next") = IF A = {} THEN Err ELSE DayAt(S, MinS(A))
              /\ LET B == {i \in DOMAIN S : Lt(Close(S[i]), t)}
                 IN  ToSession(S, t, "previous") = IF B = {} THEN Err ELSE DayAt(S, MaxS(B))
              /\ ToSession(S, t, "none") = Err
              /\ Bulk(S, <<t>>) = Err
    \* every trading minute belongs to exactly one session
    /\ \A m \in AllM(S, FALSE) : Cardinality(Inside(At(m))) = 1
    /\ \A t, u \in Instants :
         Bulk(S, <<t, u>>) = IF Lt(u, t) \/ Inside(t) = {} \/ Inside(u) = {} THEN Err
                             ELSE <<"days", <<ToSession(S, t, "next")[2], ToSession(S, u, "next")[2]>>>>

Ask(q) == Answer(S, <<>>, <<0, 0>>, q)
DaySet == {Day(S[i]) : i \in DOMAIN S}
Thm09 ==
    /\ \A d \in Days :
         /\ Ask(<<"next_session", d>>) = IF d \notin DaySet \/ {e \in DaySet : e > d} = {} THEN Err
                                          ELSE <<"day", MinS({e \in DaySet : e > d})>>
         /\ Ask(<<"previous_session", d>>) = IF d \notin DaySet \/ {e \in DaySet : e < d} = {} THEN Err
                                          ELSE <<"day", MaxS({e \in DaySet : e < d})>>
         /\ Ask(<<"is_session", <<d * 1440, 0, 0>>>>) = <<"bool", d \in DaySet>>
         /\ Ask(<<"is_session", <<d * 1440 + 1, 0, 0>>>>) = <<"bool", FALSE>>
         /\ (Ask(<<"open_and_close", d>>) = Err) = (d \notin DaySet)
         /\ \A c \in -4 .. 4 :
              LET w == Ask(<<"sessions_window", d, c>>) IN
              IF d \notin DaySet THEN w = Err
              ELSE /\ w[1] = "days" /\ Increasing(w[2])
                   /\ SetOf(w[2]) = IF c >= 0 THEN Firsts({e \in DaySet : e >= d}, c + 1)
                                    ELSE Lasts({e \in DaySet : e <= d}, -c + 1)
    /\ \A a, b \in Days :
         LET r == Ask(<<"sessions_in_range", a, b>>)[2]
             o == Ask(<<"opens_in_range", a, b>>)[2]
             c == Ask(<<"closes_in_range", a, b>>)[2]
         IN  /\ Increasing(r) /\ SetOf(r) = {e \in DaySet : e >= a /\ e <= b}
             /\ Len(o) = Len(r) /\ Len(c) = Len(r)
             /\ \A k \in DOMAIN r : /\ o[k][1] = r[k] /\ c[k][1] = r[k]
                                    /\ <<"pair", o[k][2], c[k][2]>> = Ask(<<"open_and_close", r[k]>>)
             /\ a <= b => Ask(<<"session_distance", a, b>>) = <<"int", Len(r)>>
             /\ a # b => Ask(<<"session_distance", b, a>>)[2] = -Ask(<<"session_distance", a, b>>)[2]

Thm19 ==
    LET R == Runs(S, TRUE) IN
    \A x \in {<<0, 0>>, <<1, -1>>, <<2, 0>>, <<1, 1>>} :
      /\ \A i \in DOMAIN S :
           IsListOf(Answer(S, R, x, <<"exec_session", Day(S[i])>>)[2],
                    Between(AllM(S, TRUE), Shift(Open(S[i]), x[1]), Shift(Close(S[i]), x[2])))
      /\ \A d \in Days : d \notin DaySet => Answer(S, R, x, <<"exec_session", d>>) = Err
      /\ \A i \in DOMAIN S : Answer(S, R, <<0, 0>>, <<"exec_session", Day(S[i])>>)
                             = Answer(S, R, <<0, 0>>, <<"minutes_for_session", Day(S[i])>>)
      /\ x[2] <= 0 => \A a, b \in DOMAIN S : a <= b =>
           IsListOf(Answer(S, R, x, <<"exec_range", Day(S[a]), Day(S[b])>>)[2],
                    UNION {SetOf(Expand(ExecRuns(S, R, x, k), 1)) : k \in a .. b})
=============================================================================
