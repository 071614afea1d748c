------------------------------ MODULE EX_BVMF ------------------------------
EXTENDS RuleTables

BVMF == [
  name |-> "BVMF",
  tz |-> "America/Sao_Paulo",
  mask |-> {MON, TUE, WED, THU, FRI},
  opens |-> <<<<NegInf, HM(10, 1)>>>>,
  closes |-> <<<<NegInf, HM(17, 0)>>, <<YMD(20191104), HM(18, 0)>>>>,
  bstarts |-> <<>>,
  bends |-> <<>>,
  oo |-> 0, co |-> 0,
  rules |-> <<
    [m |-> 1, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Dia da Confraternizacao Universal
    [m |-> 1, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Aniversario de Sao Paulo
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -48>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Carnaval Segunda
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -47>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Carnaval Terca
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", -2>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Good Friday
    [m |-> 1, d |-> 1, off |-> <<<<"easter">>, <<"days", 60>>>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Corpus Christi
    [m |-> 4, d |-> 21, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Tiradentes
    [m |-> 5, d |-> 1, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Dia Trabalho
    [m |-> 7, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(19980101), to |-> YMD(20200101), year |-> 0],   \* Constitucionalista pre-pandemia
    [m |-> 7, d |-> 9, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20210101), to |-> PosInf, year |-> 0],   \* Constitucionalista pos-pandemia
    [m |-> 9, d |-> 7, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Independencia
    [m |-> 10, d |-> 12, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Nossa Senhora de Aparecida
    [m |-> 11, d |-> 2, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Dia dos Finados
    [m |-> 11, d |-> 15, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Proclamacao da Republica
    [m |-> 11, d |-> 20, off |-> <<>>, obs |-> "", dow |-> {}, from |-> YMD(20040101), to |-> PosInf, year |-> 0],   \* Dia da Consciencia Negra
    [m |-> 12, d |-> 24, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Vespera Natal
    [m |-> 12, d |-> 25, off |-> <<>>, obs |-> "", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0],   \* Natal
    [m |-> 12, d |-> 31, off |-> <<>>, obs |-> "previous_friday", dow |-> {}, from |-> NegInf, to |-> PosInf, year |-> 0]   \* Ano Novo
  >>,
  adhoc |-> Days({
    20140612}),
  sopens |-> <<>>, sopensA |-> <<>>,
  scloses |-> <<>>,
  sclosesA |-> <<>>
]
=============================================================================
