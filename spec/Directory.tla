------------------------------ MODULE Directory ------------------------------
(***************************************************************************)
(* The default registry (C14): which names the package advertises and what *)
(* each means.  The exchanges and their zones are those of Exchanges.      *)
(***************************************************************************)
EXTENDS Exchanges

DefaultAliases ==
    [NYSE |-> "XNYS", NASDAQ |-> "XNYS", BATS |-> "XNYS", FWB |-> "XFRA", LSE |-> "XLON",
     TSX |-> "XTSE", BMF |-> "BVMF", CME |-> "CMES", CBOT |-> "CMES", COMEX |-> "CMES",
     NYMEX |-> "CMES", ICE |-> "IEPA", ICEUS |-> "IEPA", NYFE |-> "IEPA", CFE |-> "XCBF",
     JKT |-> "XIDX", SIX |-> "XSWX", JPX |-> "XTKS", ASX |-> "XASX", HKEX |-> "XHKG",
     OSE |-> "XOSL", BSE |-> "XBOM", SSE |-> "XSHG", TASE |-> "XTAE"]

DefaultNames == ExchangeNames \cup DOMAIN DefaultAliases

(* The name a calendar gives itself.                                       *)
OwnName(x) == IF x = "CMES" THEN "CME" ELSE x
ZoneOf(x) == Exchange(x).tz

ASSUME \A a \in DOMAIN DefaultAliases : a \notin ExchangeNames /\ DefaultAliases[a] \in ExchangeNames
ASSUME \A x, y \in ExchangeNames : OwnName(x) = OwnName(y) => x = y
=============================================================================
