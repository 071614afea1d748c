------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* C26.  What kind of thing each query gives back, whatever its arguments: *)
(*   instant, label   one moment, in UTC ("none" where there is no break)  *)
(*   moments          an index of moments in UTC, possibly empty           *)
(*   pair             two moments in UTC                                   *)
(*   series           moments by label; labels in UTC; values in UTC or    *)
(*                    without a zone (then meaning UTC)                    *)
(*   flag, count                                                           *)
(* A query may always be refused; that is for other properties to judge.   *)
(***************************************************************************)
EXTENDS Sequences, FiniteSets, TLC

Moment == {"moment UTC"}
NoBreak == {"moment UTC", "none"}
Moments == {"index UTC"}
Pair == {"pair UTC UTC"}
PairOrNone == Pair \cup {"pair none none"}

Series == {"series UTC by UTC", "series naive by UTC"}
Flag == {"flag"}
Count == {"count"}

ShapeOf ==
    [q \in {"next_open", "next_close", "previous_open", "previous_close", "next_minute",
            "previous_minute", "to_session", "next_session", "previous_session",
            "session_open", "session_close", "first_session", "last_session",
            "first_trading_session", "last_trading_session"} |-> Moment]
    @@ [q \in {"session_break_start", "session_break_end"} |-> NoBreak]
    @@ [q \in {"bulk", "all_minutes", "minutes_for_session", "minutes_for_sessions",
               "minutes_in_range", "minutes_window", "exec_session", "exec_range",
               "sessions_in_range", "sessions_window", "all_sessions", "late_opens",
               "early_closes"} |-> Moments]
    @@ [q \in {"open_and_close"} |-> Pair]
    @@ [q \in {"break_start_and_end"} |-> PairOrNone]
    @@ [q \in {"opens_in_range", "closes_in_range", "opens", "closes"} |-> Series]
    @@ [q \in {"is_open", "is_session"} |-> Flag]
    @@ [q \in {"minutes_count", "session_distance"} |-> Count]
=============================================================================
