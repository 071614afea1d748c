----------------------------- MODULE Exchanges -----------------------------
(* The shipped exchanges by registered name; one table per exchange in    *)
(* exchanges/EX_*.tla.                                                     *)
EXTENDS EX_WEEKDAYS, EX_ALWAYS, EX_ASEX, EX_BVMF, EX_CMES, EX_IEPA, EX_XAMS, EX_XASX, EX_XBKK, EX_XBOG, EX_XBOM, EX_XBRU, EX_XBUD, EX_XBUE, EX_XCBF, EX_XCSE, EX_XDUB, EX_XETR, EX_XFRA, EX_XHEL, EX_XHKG, EX_XICE, EX_XIDX, EX_XIST, EX_XJSE, EX_XKAR, EX_XKLS, EX_XKRX, EX_XLIM, EX_XLIS, EX_XLON, EX_XMAD, EX_XMEX, EX_XMIL, EX_XMOS, EX_XNYS, EX_XNZE, EX_XOSL, EX_XPAR, EX_XPHS, EX_XPRA, EX_XSES, EX_XSGO, EX_XSHG, EX_XSTO, EX_XSWX, EX_XTAE, EX_XTAI, EX_XTKS, EX_XTSE, EX_XWAR, EX_XWBO, EX_us_futures

ExchangeNames == {"24/5", "24/7", "ASEX", "BVMF", "CMES", "IEPA", "XAMS", "XASX", "XBKK", "XBOG", "XBOM", "XBRU", "XBUD", "XBUE", "XCBF", "XCSE", "XDUB", "XETR", "XFRA", "XHEL", "XHKG", "XICE", "XIDX", "XIST", "XJSE", "XKAR", "XKLS", "XKRX", "XLIM", "XLIS", "XLON", "XMAD", "XMEX", "XMIL", "XMOS", "XNYS", "XNZE", "XOSL", "XPAR", "XPHS", "XPRA", "XSES", "XSGO", "XSHG", "XSTO", "XSWX", "XTAE", "XTAI", "XTKS", "XTSE", "XWAR", "XWBO", "us_futures"}

Exchange(x) ==
    CASE x = "24/5" -> WEEKDAYS
      [] x = "24/7" -> ALWAYS
      [] x = "ASEX" -> ASEX
      [] x = "BVMF" -> BVMF
      [] x = "CMES" -> CMES
      [] x = "IEPA" -> IEPA
      [] x = "XAMS" -> XAMS
      [] x = "XASX" -> XASX
      [] x = "XBKK" -> XBKK
      [] x = "XBOG" -> XBOG
      [] x = "XBOM" -> XBOM
      [] x = "XBRU" -> XBRU
      [] x = "XBUD" -> XBUD
      [] x = "XBUE" -> XBUE
      [] x = "XCBF" -> XCBF
      [] x = "XCSE" -> XCSE
      [] x = "XDUB" -> XDUB
      [] x = "XETR" -> XETR
      [] x = "XFRA" -> XFRA
      [] x = "XHEL" -> XHEL
      [] x = "XHKG" -> XHKG
      [] x = "XICE" -> XICE
      [] x = "XIDX" -> XIDX
      [] x = "XIST" -> XIST
      [] x = "XJSE" -> XJSE
      [] x = "XKAR" -> XKAR
      [] x = "XKLS" -> XKLS
      [] x = "XKRX" -> XKRX
      [] x = "XLIM" -> XLIM
      [] x = "XLIS" -> XLIS
      [] x = "XLON" -> XLON
      [] x = "XMAD" -> XMAD
      [] x = "XMEX" -> XMEX
      [] x = "XMIL" -> XMIL
      [] x = "XMOS" -> XMOS
      [] x = "XNYS" -> XNYS
      [] x = "XNZE" -> XNZE
      [] x = "XOSL" -> XOSL
      [] x = "XPAR" -> XPAR
      [] x = "XPHS" -> XPHS
      [] x = "XPRA" -> XPRA
      [] x = "XSES" -> XSES
      [] x = "XSGO" -> XSGO
      [] x = "XSHG" -> XSHG
      [] x = "XSTO" -> XSTO
      [] x = "XSWX" -> XSWX
      [] x = "XTAE" -> XTAE
      [] x = "XTAI" -> XTAI
      [] x = "XTKS" -> XTKS
      [] x = "XTSE" -> XTSE
      [] x = "XWAR" -> XWAR
      [] x = "XWBO" -> XWBO
      [] x = "us_futures" -> us_futures
=============================================================================
