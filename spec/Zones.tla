------------------------------- MODULE Zones -------------------------------
(* Time zone data: offset (minutes east of UTC) before the first listed    *)
(* transition and <<UTC minute, offset from then on>> for each transition  *)
(* since 1968.  From the zone database of the environment (pytz 2020.1);   *)
(* the repository only names zones.                                        *)
EXTENDS Integers, Sequences

ZoneTable(tz) ==
    CASE tz = "Africa/Casablanca" -> [base |-> 0, trans |-> <<<<2354400, 60>>, <<2453700, 0>>, <<3329280, 60>>, <<3461700, 0>>, <<3854880, 60>>, <<4070820, 0>>, <<4425120, 60>>, <<4517220, 0>>, <<7470720, 60>>, <<8415300, 0>>, <<20204640, 60>>, <<20337060, 0>>, <<20730240, 60>>, <<20846820, 0>>, <<21212640, 60>>, <<21353700, 0>>, <<21696480, 60>>, <<21867780, 0>>, <<22261080, 60>>, <<22379160, 0>>, <<22423800, 60>>, <<22482840, 0>>, <<22785240, 60>>, <<22886040, 0>>, <<22935000, 60>>, <<23047320, 0>>, <<23269080, 60>>, <<23398680, 0>>, <<23449080, 60>>, <<23571480, 0>>, <<23793240, 60>>, <<23904120, 0>>, <<23954520, 60>>, <<24095640, 0>>, <<24317400, 60>>, <<24418200, 0>>, <<24468600, 60>>, <<24629880, 0>>, <<24841560, 60>>, <<24922200, 0>>, <<24982680, 60>>, <<25154040, 0>>, <<25365720, 60>>, <<25436280, 0>>, <<25486680, 60>>, <<25950360, 0>>, <<26000760, 60>>, <<26454360, 0>>, <<26514840, 60>>, <<26968440, 0>>, <<27018840, 60>>, <<27472440, 0>>, <<27532920, 60>>, <<27986520, 0>>, <<28036920, 60>>, <<28500600, 0>>, <<28551000, 60>>, <<29004600, 0>>, <<29065080, 60>>, <<29518680, 0>>, <<29569080, 60>>, <<30032760, 0>>, <<30083160, 60>>, <<30536760, 0>>, <<30597240, 60>>, <<31050840, 0>>, <<31101240, 60>>, <<31554840, 0>>, <<31615320, 60>>, <<32068920, 0>>, <<32119320, 60>>, <<32583000, 0>>, <<32633400, 60>>, <<33087000, 0>>, <<33147480, 60>>, <<33601080, 0>>, <<33651480, 60>>, <<34105080, 0>>, <<34165560, 60>>, <<34619160, 0>>, <<34679640, 60>>, <<35133240, 0>>, <<35183640, 60>>, <<35637240, 0>>, <<35697720, 60>>>>]
      [] tz = "Africa/Johannesburg" -> [base |-> 120, trans |-> <<>>]
      [] tz = "America/Argentina/Buenos_Aires" -> [base |-> -180, trans |-> <<<<-912780, -240>>, <<-650640, -180>>, <<-388620, -240>>, <<-126480, -180>>, <<2135700, -120>>, <<2276760, -180>>, <<9949140, -120>>, <<10084440, -180>>, <<10407060, -120>>, <<10608600, -180>>, <<10941300, -120>>, <<11132760, -180>>, <<11465460, -120>>, <<11656920, -180>>, <<11989620, -120>>, <<12191160, -180>>, <<19983060, -120>>, <<20093880, -180>>, <<20406420, -120>>, <<20618040, -180>>>>]
      [] tz = "America/Chicago" -> [base |-> -360, trans |-> <<<<-882240, -300>>, <<-620220, -360>>, <<-358080, -300>>, <<-96060, -360>>, <<166080, -300>>, <<428100, -360>>, <<690240, -300>>, <<962340, -360>>, <<1224480, -300>>, <<1486500, -360>>, <<1748640, -300>>, <<2010660, -360>>, <<2111520, -300>>, <<2534820, -360>>, <<2706240, -300>>, <<3058980, -360>>, <<3321120, -300>>, <<3593220, -360>>, <<3845280, -300>>, <<4117380, -360>>, <<4379520, -300>>, <<4641540, -360>>, <<4903680, -300>>, <<5165700, -360>>, <<5427840, -300>>, <<5689860, -360>>, <<5952000, -300>>, <<6214020, -360>>, <<6476160, -300>>, <<6748260, -360>>, <<7000320, -300>>, <<7272420, -360>>, <<7534560, -300>>, <<7796580, -360>>, <<8058720, -300>>, <<8320740, -360>>, <<8582880, -300>>, <<8844900, -360>>, <<9076800, -300>>, <<9369060, -360>>, <<9600960, -300>>, <<9903300, -360>>, <<10125120, -300>>, <<10427460, -360>>, <<10649280, -300>>, <<10951620, -360>>, <<11183520, -300>>, <<11475780, -360>>, <<11707680, -300>>, <<11999940, -360>>, <<12231840, -300>>, <<12534180, -360>>, <<12756000, -300>>, <<13058340, -360>>, <<13280160, -300>>, <<13582500, -360>>, <<13814400, -300>>, <<14106660, -360>>, <<14338560, -300>>, <<14630820, -360>>, <<14862720, -300>>, <<15154980, -360>>, <<15386880, -300>>, <<15689220, -360>>, <<15911040, -300>>, <<16213380, -360>>, <<16435200, -300>>, <<16737540, -360>>, <<16969440, -300>>, <<17261700, -360>>, <<17493600, -300>>, <<17785860, -360>>, <<18017760, -300>>, <<18320100, -360>>, <<18541920, -300>>, <<18844260, -360>>, <<19066080, -300>>, <<19368420, -360>>, <<19560000, -300>>, <<19902660, -360>>, <<20084160, -300>>, <<20426820, -360>>, <<20608320, -300>>, <<20950980, -360>>, <<21142560, -300>>, <<21485220, -360>>, <<21666720, -300>>, <<22009380, -360>>, <<22190880, -300>>, <<22533540, -360>>, <<22715040, -300>>, <<23057700, -360>>, <<23239200, -300>>, <<23581860, -360>>, <<23763360, -300>>, <<24106020, -360>>, <<24297600, -300>>, <<24640260, -360>>, <<24821760, -300>>, <<25164420, -360>>, <<25345920, -300>>, <<25688580, -360>>, <<25870080, -300>>, <<26212740, -360>>, <<26394240, -300>>, <<26736900, -360>>, <<26928480, -300>>, <<27271140, -360>>, <<27452640, -300>>, <<27795300, -360>>, <<27976800, -300>>, <<28319460, -360>>, <<28500960, -300>>, <<28843620, -360>>, <<29025120, -300>>, <<29367780, -360>>, <<29549280, -300>>, <<29891940, -360>>, <<30083520, -300>>, <<30426180, -360>>, <<30607680, -300>>, <<30950340, -360>>, <<31131840, -300>>, <<31474500, -360>>, <<31656000, -300>>, <<31998660, -360>>, <<32180160, -300>>, <<32522820, -360>>, <<32714400, -300>>, <<33057060, -360>>, <<33238560, -300>>, <<33581220, -360>>, <<33762720, -300>>, <<34105380, -360>>, <<34286880, -300>>, <<34629540, -360>>, <<34811040, -300>>, <<35153700, -360>>, <<35335200, -300>>, <<35677860, -360>>>>]
      [] tz = "America/Lima" -> [base |-> -300, trans |-> <<<<8415660, -240>>, <<8545200, -300>>, <<8941260, -240>>, <<9070800, -300>>, <<10519500, -240>>, <<10649040, -300>>, <<12623340, -240>>, <<12752880, -300>>>>]
      [] tz = "America/Los_Angeles" -> [base |-> -480, trans |-> <<<<-882120, -420>>, <<-620100, -480>>, <<-357960, -420>>, <<-95940, -480>>, <<166200, -420>>, <<428220, -480>>, <<690360, -420>>, <<962460, -480>>, <<1224600, -420>>, <<1486620, -480>>, <<1748760, -420>>, <<2010780, -480>>, <<2111640, -420>>, <<2534940, -480>>, <<2706360, -420>>, <<3059100, -480>>, <<3321240, -420>>, <<3593340, -480>>, <<3845400, -420>>, <<4117500, -480>>, <<4379640, -420>>, <<4641660, -480>>, <<4903800, -420>>, <<5165820, -480>>, <<5427960, -420>>, <<5689980, -480>>, <<5952120, -420>>, <<6214140, -480>>, <<6476280, -420>>, <<6748380, -480>>, <<7000440, -420>>, <<7272540, -480>>, <<7534680, -420>>, <<7796700, -480>>, <<8058840, -420>>, <<8320860, -480>>, <<8583000, -420>>, <<8845020, -480>>, <<9076920, -420>>, <<9369180, -480>>, <<9601080, -420>>, <<9903420, -480>>, <<10125240, -420>>, <<10427580, -480>>, <<10649400, -420>>, <<10951740, -480>>, <<11183640, -420>>, <<11475900, -480>>, <<11707800, -420>>, <<12000060, -480>>, <<12231960, -420>>, <<12534300, -480>>, <<12756120, -420>>, <<13058460, -480>>, <<13280280, -420>>, <<13582620, -480>>, <<13814520, -420>>, <<14106780, -480>>, <<14338680, -420>>, <<14630940, -480>>, <<14862840, -420>>, <<15155100, -480>>, <<15387000, -420>>, <<15689340, -480>>, <<15911160, -420>>, <<16213500, -480>>, <<16435320, -420>>, <<16737660, -480>>, <<16969560, -420>>, <<17261820, -480>>, <<17493720, -420>>, <<17785980, -480>>, <<18017880, -420>>, <<18320220, -480>>, <<18542040, -420>>, <<18844380, -480>>, <<19066200, -420>>, <<19368540, -480>>, <<19560120, -420>>, <<19902780, -480>>, <<20084280, -420>>, <<20426940, -480>>, <<20608440, -420>>, <<20951100, -480>>, <<21142680, -420>>, <<21485340, -480>>, <<21666840, -420>>, <<22009500, -480>>, <<22191000, -420>>, <<22533660, -480>>, <<22715160, -420>>, <<23057820, -480>>, <<23239320, -420>>, <<23581980, -480>>, <<23763480, -420>>, <<24106140, -480>>, <<24297720, -420>>, <<24640380, -480>>, <<24821880, -420>>, <<25164540, -480>>, <<25346040, -420>>, <<25688700, -480>>, <<25870200, -420>>, <<26212860, -480>>, <<26394360, -420>>, <<26737020, -480>>, <<26928600, -420>>, <<27271260, -480>>, <<27452760, -420>>, <<27795420, -480>>, <<27976920, -420>>, <<28319580, -480>>, <<28501080, -420>>, <<28843740, -480>>, <<29025240, -420>>, <<29367900, -480>>, <<29549400, -420>>, <<29892060, -480>>, <<30083640, -420>>, <<30426300, -480>>, <<30607800, -420>>, <<30950460, -480>>, <<31131960, -420>>, <<31474620, -480>>, <<31656120, -420>>, <<31998780, -480>>, <<32180280, -420>>, <<32522940, -480>>, <<32714520, -420>>, <<33057180, -480>>, <<33238680, -420>>, <<33581340, -480>>, <<33762840, -420>>, <<34105500, -480>>, <<34287000, -420>>, <<34629660, -480>>, <<34811160, -420>>, <<35153820, -480>>, <<35335320, -420>>, <<35677980, -480>>>>]
      [] tz = "America/Mexico_City" -> [base |-> -360, trans |-> <<<<13814400, -300>>, <<14106660, -360>>, <<14338560, -300>>, <<14630820, -360>>, <<14862720, -300>>, <<15154980, -360>>, <<15386880, -300>>, <<15689220, -360>>, <<15911040, -300>>, <<16213380, -360>>, <<16485600, -300>>, <<16697220, -360>>, <<16969440, -300>>, <<17261700, -360>>, <<17493600, -300>>, <<17785860, -360>>, <<18017760, -300>>, <<18320100, -360>>, <<18541920, -300>>, <<18844260, -360>>, <<19066080, -300>>, <<19368420, -360>>, <<19590240, -300>>, <<19892580, -360>>, <<20124480, -300>>, <<20416740, -360>>, <<20648640, -300>>, <<20940900, -360>>, <<21172800, -300>>, <<21475140, -360>>, <<21696960, -300>>, <<21999300, -360>>, <<22221120, -300>>, <<22523460, -360>>, <<22755360, -300>>, <<23047620, -360>>, <<23279520, -300>>, <<23571780, -360>>, <<23803680, -300>>, <<24095940, -360>>, <<24327840, -300>>, <<24630180, -360>>, <<24852000, -300>>, <<25154340, -360>>, <<25376160, -300>>, <<25678500, -360>>, <<25910400, -300>>, <<26202660, -360>>, <<26434560, -300>>, <<26726820, -360>>, <<26958720, -300>>, <<27261060, -360>>, <<27482880, -300>>, <<27785220, -360>>, <<28007040, -300>>, <<28309380, -360>>, <<28541280, -300>>, <<28833540, -360>>, <<29065440, -300>>, <<29357700, -360>>, <<29589600, -300>>, <<29881860, -360>>, <<30113760, -300>>, <<30416100, -360>>, <<30637920, -300>>, <<30940260, -360>>, <<31162080, -300>>, <<31464420, -360>>, <<31696320, -300>>, <<31988580, -360>>, <<32220480, -300>>, <<32512740, -360>>, <<32744640, -300>>, <<33046980, -360>>, <<33268800, -300>>, <<33571140, -360>>, <<33792960, -300>>, <<34095300, -360>>, <<34317120, -300>>, <<34619460, -360>>, <<34851360, -300>>, <<35143620, -360>>, <<35375520, -300>>, <<35667780, -360>>>>]
      [] tz = "America/New_York" -> [base |-> -300, trans |-> <<<<-882300, -240>>, <<-620280, -300>>, <<-358140, -240>>, <<-96120, -300>>, <<166020, -240>>, <<428040, -300>>, <<690180, -240>>, <<962280, -300>>, <<1224420, -240>>, <<1486440, -300>>, <<1748580, -240>>, <<2010600, -300>>, <<2111460, -240>>, <<2534760, -300>>, <<2706180, -240>>, <<3058920, -300>>, <<3321060, -240>>, <<3593160, -300>>, <<3845220, -240>>, <<4117320, -300>>, <<4379460, -240>>, <<4641480, -300>>, <<4903620, -240>>, <<5165640, -300>>, <<5427780, -240>>, <<5689800, -300>>, <<5951940, -240>>, <<6213960, -300>>, <<6476100, -240>>, <<6748200, -300>>, <<7000260, -240>>, <<7272360, -300>>, <<7534500, -240>>, <<7796520, -300>>, <<8058660, -240>>, <<8320680, -300>>, <<8582820, -240>>, <<8844840, -300>>, <<9076740, -240>>, <<9369000, -300>>, <<9600900, -240>>, <<9903240, -300>>, <<10125060, -240>>, <<10427400, -300>>, <<10649220, -240>>, <<10951560, -300>>, <<11183460, -240>>, <<11475720, -300>>, <<11707620, -240>>, <<11999880, -300>>, <<12231780, -240>>, <<12534120, -300>>, <<12755940, -240>>, <<13058280, -300>>, <<13280100, -240>>, <<13582440, -300>>, <<13814340, -240>>, <<14106600, -300>>, <<14338500, -240>>, <<14630760, -300>>, <<14862660, -240>>, <<15154920, -300>>, <<15386820, -240>>, <<15689160, -300>>, <<15910980, -240>>, <<16213320, -300>>, <<16435140, -240>>, <<16737480, -300>>, <<16969380, -240>>, <<17261640, -300>>, <<17493540, -240>>, <<17785800, -300>>, <<18017700, -240>>, <<18320040, -300>>, <<18541860, -240>>, <<18844200, -300>>, <<19066020, -240>>, <<19368360, -300>>, <<19559940, -240>>, <<19902600, -300>>, <<20084100, -240>>, <<20426760, -300>>, <<20608260, -240>>, <<20950920, -300>>, <<21142500, -240>>, <<21485160, -300>>, <<21666660, -240>>, <<22009320, -300>>, <<22190820, -240>>, <<22533480, -300>>, <<22714980, -240>>, <<23057640, -300>>, <<23239140, -240>>, <<23581800, -300>>, <<23763300, -240>>, <<24105960, -300>>, <<24297540, -240>>, <<24640200, -300>>, <<24821700, -240>>, <<25164360, -300>>, <<25345860, -240>>, <<25688520, -300>>, <<25870020, -240>>, <<26212680, -300>>, <<26394180, -240>>, <<26736840, -300>>, <<26928420, -240>>, <<27271080, -300>>, <<27452580, -240>>, <<27795240, -300>>, <<27976740, -240>>, <<28319400, -300>>, <<28500900, -240>>, <<28843560, -300>>, <<29025060, -240>>, <<29367720, -300>>, <<29549220, -240>>, <<29891880, -300>>, <<30083460, -240>>, <<30426120, -300>>, <<30607620, -240>>, <<30950280, -300>>, <<31131780, -240>>, <<31474440, -300>>, <<31655940, -240>>, <<31998600, -300>>, <<32180100, -240>>, <<32522760, -300>>, <<32714340, -240>>, <<33057000, -300>>, <<33238500, -240>>, <<33581160, -300>>, <<33762660, -240>>, <<34105320, -300>>, <<34286820, -240>>, <<34629480, -300>>, <<34810980, -240>>, <<35153640, -300>>, <<35335140, -240>>, <<35677800, -300>>>>]
      [] tz = "America/Santiago" -> [base |-> -240, trans |-> <<<<-610320, -180>>, <<-398700, -240>>, <<-55920, -180>>, <<125460, -240>>, <<407760, -180>>, <<629460, -240>>, <<931920, -180>>, <<1153620, -240>>, <<1466160, -180>>, <<1677780, -240>>, <<1970160, -180>>, <<2201940, -240>>, <<2514480, -180>>, <<2726100, -240>>, <<3038640, -180>>, <<3260340, -240>>, <<3562800, -180>>, <<3784500, -240>>, <<4086960, -180>>, <<4308660, -240>>, <<4621200, -180>>, <<4832820, -240>>, <<5145360, -180>>, <<5356980, -240>>, <<5669520, -180>>, <<5891220, -240>>, <<6193680, -180>>, <<6415380, -240>>, <<6717840, -180>>, <<6939540, -240>>, <<7242000, -180>>, <<7463700, -240>>, <<7776240, -180>>, <<7987860, -240>>, <<8300400, -180>>, <<8512020, -240>>, <<8824560, -180>>, <<9086580, -240>>, <<9348720, -180>>, <<9570420, -240>>, <<9872880, -180>>, <<10094580, -240>>, <<10407120, -180>>, <<10618740, -240>>, <<10890960, -180>>, <<11142900, -240>>, <<11455440, -180>>, <<11677140, -240>>, <<11979600, -180>>, <<12201300, -240>>, <<12503760, -180>>, <<12725460, -240>>, <<13027920, -180>>, <<13249620, -240>>, <<13562160, -180>>, <<13773780, -240>>, <<14086320, -180>>, <<14328180, -240>>, <<14610480, -180>>, <<14832180, -240>>, <<15114480, -180>>, <<15386580, -240>>, <<15658800, -180>>, <<15880500, -240>>, <<16193040, -180>>, <<16404660, -240>>, <<16717200, -180>>, <<16928820, -240>>, <<17241360, -180>>, <<17452980, -240>>, <<17765520, -180>>, <<17987220, -240>>, <<18289680, -180>>, <<18511380, -240>>, <<18813840, -180>>, <<19035540, -240>>, <<19348080, -180>>, <<19559700, -240>>, <<19872240, -180>>, <<20114100, -240>>, <<20396400, -180>>, <<20618100, -240>>, <<20920560, -180>>, <<21172500, -240>>, <<21444720, -180>>, <<21747060, -240>>, <<21898320, -180>>, <<22261140, -240>>, <<22442640, -180>>, <<22785300, -240>>, <<22976880, -180>>, <<23309460, -240>>, <<23501040, -180>>, <<24388020, -240>>, <<24519120, -180>>, <<24912180, -240>>, <<25043280, -180>>, <<25436340, -240>>, <<25567440, -180>>, <<25910100, -240>>, <<26131920, -180>>, <<26434260, -240>>, <<26656080, -180>>, <<26958420, -240>>, <<27180240, -180>>, <<27482580, -240>>, <<27704400, -180>>, <<28006740, -240>>, <<28228560, -180>>, <<28540980, -240>>, <<28762800, -180>>, <<29065140, -240>>, <<29286960, -180>>, <<29589300, -240>>, <<29811120, -180>>, <<30113460, -240>>, <<30335280, -180>>, <<30637620, -240>>, <<30859440, -180>>, <<31171860, -240>>, <<31383600, -180>>, <<31696020, -240>>, <<31917840, -180>>, <<32220180, -240>>, <<32442000, -180>>, <<32744340, -240>>, <<32966160, -180>>, <<33268500, -240>>, <<33490320, -180>>, <<33792660, -240>>, <<34014480, -180>>, <<34326900, -240>>, <<34538640, -180>>, <<34851060, -240>>, <<35072880, -180>>, <<35375220, -240>>, <<35597040, -180>>>>]
      [] tz = "America/Sao_Paulo" -> [base |-> -120, trans |-> <<<<-966120, -180>>, <<8329140, -120>>, <<8520600, -180>>, <<8843220, -120>>, <<9004440, -180>>, <<9368820, -120>>, <<9519960, -180>>, <<9882900, -120>>, <<10034040, -180>>, <<10407060, -120>>, <<10578360, -180>>, <<10941300, -120>>, <<11112600, -180>>, <<11465460, -120>>, <<11626680, -180>>, <<11999700, -120>>, <<12140760, -180>>, <<12513780, -120>>, <<12695160, -180>>, <<13037940, -120>>, <<13219320, -180>>, <<13562100, -120>>, <<13733400, -180>>, <<14076180, -120>>, <<14267640, -180>>, <<14601780, -120>>, <<14811960, -180>>, <<15134580, -120>>, <<15326040, -180>>, <<15648660, -120>>, <<15860280, -180>>, <<16182900, -120>>, <<16374360, -180>>, <<16717140, -120>>, <<16898520, -180>>, <<17271540, -120>>, <<17422680, -180>>, <<17775540, -120>>, <<17946840, -180>>, <<18322740, -120>>, <<18481080, -180>>, <<18823860, -120>>, <<19005240, -180>>, <<19378260, -120>>, <<19539480, -180>>, <<19872180, -120>>, <<20053560, -180>>, <<20406420, -120>>, <<20577720, -180>>, <<20930580, -120>>, <<21111960, -180>>, <<21454740, -120>>, <<21636120, -180>>, <<21978900, -120>>, <<22170360, -180>>, <<22513140, -120>>, <<22684440, -180>>, <<23037300, -120>>, <<23208600, -180>>, <<23561460, -120>>, <<23742840, -180>>, <<24085620, -120>>, <<24267000, -180>>, <<24609780, -120>>, <<24791160, -180>>, <<25133940, -120>>, <<25315320, -180>>, <<25688340, -120>>, <<25839480, -180>>>>]
      [] tz = "America/St_Johns" -> [base |-> -210, trans |-> <<<<-882390, -150>>, <<-620370, -210>>, <<-358230, -150>>, <<-96210, -210>>, <<165930, -150>>, <<427950, -210>>, <<690090, -150>>, <<962190, -210>>, <<1224330, -150>>, <<1486350, -210>>, <<1748490, -150>>, <<2010510, -210>>, <<2272650, -150>>, <<2534670, -210>>, <<2796810, -150>>, <<3058830, -210>>, <<3320970, -150>>, <<3593070, -210>>, <<3845130, -150>>, <<4117230, -210>>, <<4379370, -150>>, <<4641390, -210>>, <<4903530, -150>>, <<5165550, -210>>, <<5427690, -150>>, <<5689710, -210>>, <<5951850, -150>>, <<6213870, -210>>, <<6476010, -150>>, <<6748110, -210>>, <<7000170, -150>>, <<7272270, -210>>, <<7534410, -150>>, <<7796430, -210>>, <<8058570, -150>>, <<8320590, -210>>, <<8582730, -150>>, <<8844750, -210>>, <<9076531, -150>>, <<9368791, -210>>, <<9600691, -90>>, <<9902971, -210>>, <<10124851, -150>>, <<10427191, -210>>, <<10649011, -150>>, <<10951351, -210>>, <<11183251, -150>>, <<11475511, -210>>, <<11707411, -150>>, <<11999671, -210>>, <<12231571, -150>>, <<12533911, -210>>, <<12755731, -150>>, <<13058071, -210>>, <<13279891, -150>>, <<13582231, -210>>, <<13814131, -150>>, <<14106391, -210>>, <<14338291, -150>>, <<14630551, -210>>, <<14862451, -150>>, <<15154711, -210>>, <<15386611, -150>>, <<15688951, -210>>, <<15910771, -150>>, <<16213111, -210>>, <<16434931, -150>>, <<16737271, -210>>, <<16969171, -150>>, <<17261431, -210>>, <<17493331, -150>>, <<17785591, -210>>, <<18017491, -150>>, <<18319831, -210>>, <<18541651, -150>>, <<18843991, -210>>, <<19065811, -150>>, <<19368151, -210>>, <<19559731, -150>>, <<19902391, -210>>, <<20083891, -150>>, <<20426551, -210>>, <<20608051, -150>>, <<20950711, -210>>, <<21142291, -150>>, <<21484951, -210>>, <<21666451, -150>>, <<22009230, -210>>, <<22190730, -150>>, <<22533390, -210>>, <<22714890, -150>>, <<23057550, -210>>, <<23239050, -150>>, <<23581710, -210>>, <<23763210, -150>>, <<24105870, -210>>, <<24297450, -150>>, <<24640110, -210>>, <<24821610, -150>>, <<25164270, -210>>, <<25345770, -150>>, <<25688430, -210>>, <<25869930, -150>>, <<26212590, -210>>, <<26394090, -150>>, <<26736750, -210>>, <<26928330, -150>>, <<27270990, -210>>, <<27452490, -150>>, <<27795150, -210>>, <<27976650, -150>>, <<28319310, -210>>, <<28500810, -150>>, <<28843470, -210>>, <<29024970, -150>>, <<29367630, -210>>, <<29549130, -150>>, <<29891790, -210>>, <<30083370, -150>>, <<30426030, -210>>, <<30607530, -150>>, <<30950190, -210>>, <<31131690, -150>>, <<31474350, -210>>, <<31655850, -150>>, <<31998510, -210>>, <<32180010, -150>>, <<32522670, -210>>, <<32714250, -150>>, <<33056910, -210>>, <<33238410, -150>>, <<33581070, -210>>, <<33762570, -150>>, <<34105230, -210>>, <<34286730, -150>>, <<34629390, -210>>, <<34810890, -150>>, <<35153550, -210>>, <<35335050, -150>>, <<35677710, -210>>>>]
      [] tz = "America/Toronto" -> [base |-> -300, trans |-> <<<<-882300, -240>>, <<-620280, -300>>, <<-358140, -240>>, <<-96120, -300>>, <<166020, -240>>, <<428040, -300>>, <<690180, -240>>, <<962280, -300>>, <<1224420, -240>>, <<1486440, -300>>, <<1748580, -240>>, <<2010600, -300>>, <<2272740, -240>>, <<2534760, -300>>, <<2796900, -240>>, <<3058920, -300>>, <<3321060, -240>>, <<3593160, -300>>, <<3845220, -240>>, <<4117320, -300>>, <<4379460, -240>>, <<4641480, -300>>, <<4903620, -240>>, <<5165640, -300>>, <<5427780, -240>>, <<5689800, -300>>, <<5951940, -240>>, <<6213960, -300>>, <<6476100, -240>>, <<6748200, -300>>, <<7000260, -240>>, <<7272360, -300>>, <<7534500, -240>>, <<7796520, -300>>, <<8058660, -240>>, <<8320680, -300>>, <<8582820, -240>>, <<8844840, -300>>, <<9076740, -240>>, <<9369000, -300>>, <<9600900, -240>>, <<9903240, -300>>, <<10125060, -240>>, <<10427400, -300>>, <<10649220, -240>>, <<10951560, -300>>, <<11183460, -240>>, <<11475720, -300>>, <<11707620, -240>>, <<11999880, -300>>, <<12231780, -240>>, <<12534120, -300>>, <<12755940, -240>>, <<13058280, -300>>, <<13280100, -240>>, <<13582440, -300>>, <<13814340, -240>>, <<14106600, -300>>, <<14338500, -240>>, <<14630760, -300>>, <<14862660, -240>>, <<15154920, -300>>, <<15386820, -240>>, <<15689160, -300>>, <<15910980, -240>>, <<16213320, -300>>, <<16435140, -240>>, <<16737480, -300>>, <<16969380, -240>>, <<17261640, -300>>, <<17493540, -240>>, <<17785800, -300>>, <<18017700, -240>>, <<18320040, -300>>, <<18541860, -240>>, <<18844200, -300>>, <<19066020, -240>>, <<19368360, -300>>, <<19559940, -240>>, <<19902600, -300>>, <<20084100, -240>>, <<20426760, -300>>, <<20608260, -240>>, <<20950920, -300>>, <<21142500, -240>>, <<21485160, -300>>, <<21666660, -240>>, <<22009320, -300>>, <<22190820, -240>>, <<22533480, -300>>, <<22714980, -240>>, <<23057640, -300>>, <<23239140, -240>>, <<23581800, -300>>, <<23763300, -240>>, <<24105960, -300>>, <<24297540, -240>>, <<24640200, -300>>, <<24821700, -240>>, <<25164360, -300>>, <<25345860, -240>>, <<25688520, -300>>, <<25870020, -240>>, <<26212680, -300>>, <<26394180, -240>>, <<26736840, -300>>, <<26928420, -240>>, <<27271080, -300>>, <<27452580, -240>>, <<27795240, -300>>, <<27976740, -240>>, <<28319400, -300>>, <<28500900, -240>>, <<28843560, -300>>, <<29025060, -240>>, <<29367720, -300>>, <<29549220, -240>>, <<29891880, -300>>, <<30083460, -240>>, <<30426120, -300>>, <<30607620, -240>>, <<30950280, -300>>, <<31131780, -240>>, <<31474440, -300>>, <<31655940, -240>>, <<31998600, -300>>, <<32180100, -240>>, <<32522760, -300>>, <<32714340, -240>>, <<33057000, -300>>, <<33238500, -240>>, <<33581160, -300>>, <<33762660, -240>>, <<34105320, -300>>, <<34286820, -240>>, <<34629480, -300>>, <<34810980, -240>>, <<35153640, -300>>, <<35335140, -240>>, <<35677800, -300>>>>]
      [] tz = "Asia/Bangkok" -> [base |-> 420, trans |-> <<>>]
      [] tz = "Asia/Calcutta" -> [base |-> 330, trans |-> <<>>]
      [] tz = "Asia/Hong_Kong" -> [base |-> 480, trans |-> <<<<-893070, 540>>, <<-631050, 480>>, <<-368910, 540>>, <<-106890, 480>>, <<155250, 540>>, <<417270, 480>>, <<679410, 540>>, <<941430, 480>>, <<1203570, 540>>, <<1475670, 480>>, <<1737810, 540>>, <<1999830, 480>>, <<2100690, 540>>, <<2523990, 480>>, <<2786130, 540>>, <<3048150, 480>>, <<3310290, 540>>, <<3572310, 480>>, <<4923090, 540>>, <<5154870, 480>>>>]
      [] tz = "Asia/Jakarta" -> [base |-> 420, trans |-> <<>>]
      [] tz = "Asia/Karachi" -> [base |-> 300, trans |-> <<<<16968660, 360>>, <<17230680, 300>>, <<20204340, 360>>, <<20424600, 300>>, <<20662260, 360>>, <<20950200, 300>>>>]
      [] tz = "Asia/Kathmandu" -> [base |-> 330, trans |-> <<<<8415030, 345>>>>]
      [] tz = "Asia/Kolkata" -> [base |-> 330, trans |-> <<>>]
      [] tz = "Asia/Kuala_Lumpur" -> [base |-> 450, trans |-> <<<<6311070, 480>>>>]
      [] tz = "Asia/Manila" -> [base |-> 480, trans |-> <<<<4322400, 540>>, <<4585860, 480>>>>]
      [] tz = "Asia/Seoul" -> [base |-> 540, trans |-> <<<<9126300, 600>>, <<9348060, 540>>, <<9650460, 600>>, <<9872220, 540>>>>]
      [] tz = "Asia/Shanghai" -> [base |-> 480, trans |-> <<<<8592120, 540>>, <<8783580, 480>>, <<9086040, 540>>, <<9307740, 480>>, <<9620280, 540>>, <<9831900, 480>>, <<10144440, 540>>, <<10366140, 480>>, <<10668600, 540>>, <<10890300, 480>>, <<11192760, 540>>, <<11414460, 480>>>>]
      [] tz = "Asia/Singapore" -> [base |-> 450, trans |-> <<<<6311070, 480>>>>]
      [] tz = "Asia/Taipei" -> [base |-> 480, trans |-> <<<<2232960, 540>>, <<2496420, 480>>, <<2758560, 540>>, <<3022020, 480>>, <<4993440, 540>>, <<5125860, 480>>>>]
      [] tz = "Asia/Tel_Aviv" -> [base |-> 120, trans |-> <<<<2373000, 180>>, <<2514060, 120>>, <<2786280, 180>>, <<2977740, 120>>, <<5566920, 180>>, <<5627400, 120>>, <<7542600, 180>>, <<7703880, 120>>, <<8037960, 180>>, <<8259660, 120>>, <<8612520, 180>>, <<8773740, 120>>, <<9090600, 180>>, <<9307980, 120>>, <<9610440, 180>>, <<9822060, 120>>, <<10164840, 180>>, <<10346220, 120>>, <<10638600, 180>>, <<10860300, 120>>, <<11162760, 180>>, <<11394540, 120>>, <<11697000, 180>>, <<11928780, 120>>, <<12228360, 180>>, <<12452940, 120>>, <<12752520, 180>>, <<12967020, 120>>, <<13276680, 180>>, <<13501260, 120>>, <<13780680, 180>>, <<14047020, 120>>, <<14314920, 180>>, <<14569740, 120>>, <<14839080, 180>>, <<15083820, 120>>, <<15383520, 180>>, <<15605220, 120>>, <<15927840, 180>>, <<16179720, 120>>, <<16446180, 180>>, <<16688040, 120>>, <<16955940, 180>>, <<17232360, 120>>, <<17480100, 180>>, <<17752200, 120>>, <<18021540, 180>>, <<18263400, 120>>, <<18538560, 180>>, <<18813540, 120>>, <<19062720, 180>>, <<19327620, 120>>, <<19586880, 180>>, <<19831620, 120>>, <<20111040, 180>>, <<20386020, 120>>, <<20635200, 180>>, <<20900100, 120>>, <<21159360, 180>>, <<21404100, 120>>, <<21693600, 180>>, <<21958500, 120>>, <<22217760, 180>>, <<22472580, 120>>, <<22741920, 180>>, <<23047140, 120>>, <<23266080, 180>>, <<23571300, 120>>, <<23790240, 180>>, <<24095460, 120>>, <<24314400, 180>>, <<24629700, 120>>, <<24838560, 180>>, <<25153860, 120>>, <<25362720, 180>>, <<25678020, 120>>, <<25896960, 180>>, <<26202180, 120>>, <<26421120, 180>>, <<26726340, 120>>, <<26945280, 180>>, <<27260580, 120>>, <<27469440, 180>>, <<27784740, 120>>, <<27993600, 180>>, <<28308900, 120>>, <<28527840, 180>>, <<28833060, 120>>, <<29052000, 180>>, <<29357220, 120>>, <<29576160, 180>>, <<29881380, 120>>, <<30100320, 180>>, <<30415620, 120>>, <<30624480, 180>>, <<30939780, 120>>, <<31148640, 180>>, <<31463940, 120>>, <<31682880, 180>>, <<31988100, 120>>, <<32207040, 180>>, <<32512260, 120>>, <<32731200, 180>>, <<33046500, 120>>, <<33255360, 180>>, <<33570660, 120>>, <<33779520, 180>>, <<34094820, 120>>, <<34303680, 180>>, <<34618980, 120>>, <<34837920, 180>>, <<35143140, 120>>, <<35362080, 180>>, <<35667300, 120>>>>]
      [] tz = "Asia/Tokyo" -> [base |-> 540, trans |-> <<>>]
      [] tz = "Atlantic/Reykjavik" -> [base |-> -60, trans |-> <<<<-912840, 0>>>>]
      [] tz = "Australia/Lord_Howe" -> [base |-> 600, trans |-> <<<<5870280, 630>>, <<6213090, 690>>, <<6404550, 630>>, <<6747330, 690>>, <<6928710, 630>>, <<7271490, 690>>, <<7452870, 630>>, <<7795650, 690>>, <<7977030, 630>>, <<8319810, 660>>, <<8521380, 630>>, <<8833890, 660>>, <<9045540, 630>>, <<9368130, 660>>, <<9579780, 630>>, <<9902370, 660>>, <<10103940, 630>>, <<10426530, 660>>, <<10607940, 630>>, <<10950690, 660>>, <<11132100, 630>>, <<11474850, 660>>, <<11656260, 630>>, <<11999010, 660>>, <<12190500, 630>>, <<12533250, 660>>, <<12714660, 630>>, <<13057410, 660>>, <<13238820, 630>>, <<13581570, 660>>, <<13803300, 630>>, <<14105730, 660>>, <<14327460, 630>>, <<14629890, 660>>, <<14851620, 630>>, <<15154050, 660>>, <<15375780, 630>>, <<15688290, 660>>, <<15899940, 630>>, <<16121730, 660>>, <<16424100, 630>>, <<16736610, 660>>, <<16958340, 630>>, <<17260770, 660>>, <<17482500, 630>>, <<17784930, 660>>, <<18006660, 630>>, <<18319170, 660>>, <<18530820, 630>>, <<18843330, 660>>, <<19065060, 630>>, <<19367490, 660>>, <<19579140, 630>>, <<19891650, 660>>, <<20123460, 630>>, <<20385570, 660>>, <<20647620, 630>>, <<20909730, 660>>, <<21171780, 630>>, <<21433890, 660>>, <<21695940, 630>>, <<21958050, 660>>, <<22220100, 630>>, <<22492290, 660>>, <<22754340, 630>>, <<23016450, 660>>, <<23278500, 630>>, <<23540610, 660>>, <<23802660, 630>>, <<24064770, 660>>, <<24326820, 630>>, <<24588930, 660>>, <<24850980, 630>>, <<25113090, 660>>, <<25375140, 630>>, <<25647330, 660>>, <<25909380, 630>>, <<26171490, 660>>, <<26433540, 630>>, <<26695650, 660>>, <<26957700, 630>>, <<27219810, 660>>, <<27481860, 630>>, <<27743970, 660>>, <<28006020, 630>>, <<28268130, 660>>, <<28540260, 630>>, <<28802370, 660>>, <<29064420, 630>>, <<29326530, 660>>, <<29588580, 630>>, <<29850690, 660>>, <<30112740, 630>>, <<30374850, 660>>, <<30636900, 630>>, <<30899010, 660>>, <<31161060, 630>>, <<31433250, 660>>, <<31695300, 630>>, <<31957410, 660>>, <<32219460, 630>>, <<32481570, 660>>, <<32743620, 630>>, <<33005730, 660>>, <<33267780, 630>>, <<33529890, 660>>, <<33791940, 630>>, <<34054050, 660>>, <<34316100, 630>>, <<34588290, 660>>, <<34850340, 630>>, <<35112450, 660>>, <<35374500, 630>>, <<35636610, 660>>>>]
      [] tz = "Australia/Sydney" -> [base |-> 600, trans |-> <<<<961440, 660>>, <<1132800, 600>>, <<1485600, 660>>, <<1667040, 600>>, <<2009760, 660>>, <<2191200, 600>>, <<2533920, 660>>, <<2715360, 600>>, <<3058080, 660>>, <<3249600, 600>>, <<3592320, 660>>, <<3773760, 600>>, <<4116480, 660>>, <<4297920, 600>>, <<4640640, 660>>, <<4822080, 600>>, <<5164800, 660>>, <<5346240, 600>>, <<5688960, 660>>, <<5870400, 600>>, <<6213120, 660>>, <<6444960, 600>>, <<6747360, 660>>, <<6928800, 600>>, <<7271520, 660>>, <<7452960, 600>>, <<7795680, 660>>, <<7977120, 600>>, <<8319840, 660>>, <<8521440, 600>>, <<8833920, 660>>, <<9045600, 600>>, <<9368160, 660>>, <<9579840, 600>>, <<9902400, 660>>, <<10104000, 600>>, <<10426560, 660>>, <<10608000, 600>>, <<10950720, 660>>, <<11132160, 600>>, <<11474880, 660>>, <<11656320, 600>>, <<11999040, 660>>, <<12190560, 600>>, <<12533280, 660>>, <<12714720, 600>>, <<13057440, 660>>, <<13238880, 600>>, <<13581600, 660>>, <<13803360, 600>>, <<14105760, 660>>, <<14327520, 600>>, <<14629920, 660>>, <<14851680, 600>>, <<15154080, 660>>, <<15375840, 600>>, <<15688320, 660>>, <<15900000, 600>>, <<16121760, 660>>, <<16424160, 600>>, <<16736640, 660>>, <<16958400, 600>>, <<17260800, 660>>, <<17482560, 600>>, <<17784960, 660>>, <<18006720, 600>>, <<18319200, 660>>, <<18530880, 600>>, <<18843360, 660>>, <<19065120, 600>>, <<19367520, 660>>, <<19579200, 600>>, <<19891680, 660>>, <<20123520, 600>>, <<20385600, 660>>, <<20647680, 600>>, <<20909760, 660>>, <<21171840, 600>>, <<21433920, 660>>, <<21696000, 600>>, <<21958080, 660>>, <<22220160, 600>>, <<22492320, 660>>, <<22754400, 600>>, <<23016480, 660>>, <<23278560, 600>>, <<23540640, 660>>, <<23802720, 600>>, <<24064800, 660>>, <<24326880, 600>>, <<24588960, 660>>, <<24851040, 600>>, <<25113120, 660>>, <<25375200, 600>>, <<25647360, 660>>, <<25909440, 600>>, <<26171520, 660>>, <<26433600, 600>>, <<26695680, 660>>, <<26957760, 600>>, <<27219840, 660>>, <<27481920, 600>>, <<27744000, 660>>, <<28006080, 600>>, <<28268160, 660>>, <<28540320, 600>>, <<28802400, 660>>, <<29064480, 600>>, <<29326560, 660>>, <<29588640, 600>>, <<29850720, 660>>, <<30112800, 600>>, <<30374880, 660>>, <<30636960, 600>>, <<30899040, 660>>, <<31161120, 600>>, <<31433280, 660>>, <<31695360, 600>>, <<31957440, 660>>, <<32219520, 600>>, <<32481600, 660>>, <<32743680, 600>>, <<33005760, 660>>, <<33267840, 600>>, <<33529920, 660>>, <<33792000, 600>>, <<34054080, 660>>, <<34316160, 600>>, <<34588320, 660>>, <<34850400, 600>>, <<35112480, 660>>, <<35374560, 600>>, <<35636640, 660>>>>]
      [] tz = "CET" -> [base |-> 60, trans |-> <<<<3814620, 120>>, <<4066620, 60>>, <<4338780, 120>>, <<4600860, 60>>, <<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Amsterdam" -> [base |-> 60, trans |-> <<<<3814620, 120>>, <<4066620, 60>>, <<4338780, 120>>, <<4600860, 60>>, <<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Athens" -> [base |-> 120, trans |-> <<<<2774760, 180>>, <<3103080, 120>>, <<3300480, 180>>, <<3562560, 120>>, <<3814560, 180>>, <<4068000, 120>>, <<4338720, 180>>, <<4590780, 120>>, <<4863300, 180>>, <<5123460, 120>>, <<5389800, 180>>, <<5648940, 120>>, <<5911260, 180>>, <<6173340, 120>>, <<6435420, 180>>, <<6697500, 120>>, <<6959580, 180>>, <<7221660, 120>>, <<7483740, 180>>, <<7755900, 120>>, <<8017980, 180>>, <<8280060, 120>>, <<8542140, 180>>, <<8804220, 120>>, <<9066300, 180>>, <<9328380, 120>>, <<9590460, 180>>, <<9852540, 120>>, <<10114620, 180>>, <<10376700, 120>>, <<10638780, 180>>, <<10910940, 120>>, <<11173020, 180>>, <<11435100, 120>>, <<11697180, 180>>, <<11959260, 120>>, <<12221340, 180>>, <<12483420, 120>>, <<12745500, 180>>, <<13007580, 120>>, <<13269660, 180>>, <<13531740, 120>>, <<13803900, 180>>, <<14106300, 120>>, <<14328060, 180>>, <<14630460, 120>>, <<14852220, 180>>, <<15154620, 120>>, <<15376380, 180>>, <<15688860, 120>>, <<15900540, 180>>, <<16213020, 120>>, <<16424700, 180>>, <<16737180, 120>>, <<16958940, 180>>, <<17261340, 120>>, <<17483100, 180>>, <<17785500, 120>>, <<18007260, 180>>, <<18319740, 120>>, <<18531420, 180>>, <<18843900, 120>>, <<19055580, 180>>, <<19368060, 120>>, <<19579740, 180>>, <<19892220, 120>>, <<20113980, 180>>, <<20416380, 120>>, <<20638140, 180>>, <<20940540, 120>>, <<21162300, 180>>, <<21474780, 120>>, <<21686460, 180>>, <<21998940, 120>>, <<22210620, 180>>, <<22523100, 120>>, <<22744860, 180>>, <<23047260, 120>>, <<23269020, 180>>, <<23571420, 120>>, <<23793180, 180>>, <<24095580, 120>>, <<24317340, 180>>, <<24629820, 120>>, <<24841500, 180>>, <<25153980, 120>>, <<25365660, 180>>, <<25678140, 120>>, <<25899900, 180>>, <<26202300, 120>>, <<26424060, 180>>, <<26726460, 120>>, <<26948220, 180>>, <<27260700, 120>>, <<27472380, 180>>, <<27784860, 120>>, <<27996540, 180>>, <<28309020, 120>>, <<28530780, 180>>, <<28833180, 120>>, <<29054940, 180>>, <<29357340, 120>>, <<29579100, 180>>, <<29881500, 120>>, <<30103260, 180>>, <<30415740, 120>>, <<30627420, 180>>, <<30939900, 120>>, <<31151580, 180>>, <<31464060, 120>>, <<31685820, 180>>, <<31988220, 120>>, <<32209980, 180>>, <<32512380, 120>>, <<32734140, 180>>, <<33046620, 120>>, <<33258300, 180>>, <<33570780, 120>>, <<33782460, 180>>, <<34094940, 120>>, <<34306620, 180>>, <<34619100, 120>>, <<34840860, 180>>, <<35143260, 120>>, <<35365020, 180>>, <<35667420, 120>>>>]
      [] tz = "Europe/Brussels" -> [base |-> 60, trans |-> <<<<3814620, 120>>, <<4066620, 60>>, <<4338780, 120>>, <<4600860, 60>>, <<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Budapest" -> [base |-> 60, trans |-> <<<<5397120, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Copenhagen" -> [base |-> 60, trans |-> <<<<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Dublin" -> [base |-> 0, trans |-> <<<<-983400, 60>>, <<962040, 0>>, <<1163640, 60>>, <<1486200, 0>>, <<1687800, 60>>, <<2010360, 0>>, <<2211960, 60>>, <<2534520, 0>>, <<2736120, 60>>, <<3058680, 0>>, <<3270360, 60>>, <<3582840, 0>>, <<3794520, 60>>, <<4107000, 0>>, <<4318680, 60>>, <<4641240, 0>>, <<4842840, 60>>, <<5165400, 0>>, <<5367000, 60>>, <<5689560, 0>>, <<5911260, 60>>, <<6213660, 0>>, <<6435420, 60>>, <<6737820, 0>>, <<6959580, 60>>, <<7261980, 0>>, <<7483740, 60>>, <<7796220, 0>>, <<8017980, 60>>, <<8320380, 0>>, <<8542140, 60>>, <<8844540, 0>>, <<9066300, 60>>, <<9368700, 0>>, <<9590460, 60>>, <<9892860, 0>>, <<10114620, 60>>, <<10427100, 0>>, <<10638780, 60>>, <<10951260, 0>>, <<11173020, 60>>, <<11475420, 0>>, <<11697180, 60>>, <<11999580, 0>>, <<12221340, 60>>, <<12523740, 0>>, <<12745500, 60>>, <<13047900, 0>>, <<13269660, 60>>, <<13572060, 0>>, <<13803900, 60>>, <<14106300, 0>>, <<14328060, 60>>, <<14630460, 0>>, <<14852220, 60>>, <<15154620, 0>>, <<15376380, 60>>, <<15688860, 0>>, <<15900540, 60>>, <<16213020, 0>>, <<16424700, 60>>, <<16737180, 0>>, <<16958940, 60>>, <<17261340, 0>>, <<17483100, 60>>, <<17785500, 0>>, <<18007260, 60>>, <<18319740, 0>>, <<18531420, 60>>, <<18843900, 0>>, <<19055580, 60>>, <<19368060, 0>>, <<19579740, 60>>, <<19892220, 0>>, <<20113980, 60>>, <<20416380, 0>>, <<20638140, 60>>, <<20940540, 0>>, <<21162300, 60>>, <<21474780, 0>>, <<21686460, 60>>, <<21998940, 0>>, <<22210620, 60>>, <<22523100, 0>>, <<22744860, 60>>, <<23047260, 0>>, <<23269020, 60>>, <<23571420, 0>>, <<23793180, 60>>, <<24095580, 0>>, <<24317340, 60>>, <<24629820, 0>>, <<24841500, 60>>, <<25153980, 0>>, <<25365660, 60>>, <<25678140, 0>>, <<25899900, 60>>, <<26202300, 0>>, <<26424060, 60>>, <<26726460, 0>>, <<26948220, 60>>, <<27260700, 0>>, <<27472380, 60>>, <<27784860, 0>>, <<27996540, 60>>, <<28309020, 0>>, <<28530780, 60>>, <<28833180, 0>>, <<29054940, 60>>, <<29357340, 0>>, <<29579100, 60>>, <<29881500, 0>>, <<30103260, 60>>, <<30415740, 0>>, <<30627420, 60>>, <<30939900, 0>>, <<31151580, 60>>, <<31464060, 0>>, <<31685820, 60>>, <<31988220, 0>>, <<32209980, 60>>, <<32512380, 0>>, <<32734140, 60>>, <<33046620, 0>>, <<33258300, 60>>, <<33570780, 0>>, <<33782460, 60>>, <<34094940, 0>>, <<34306620, 60>>, <<34619100, 0>>, <<34840860, 60>>, <<35143260, 0>>, <<35365020, 60>>, <<35667420, 0>>>>]
      [] tz = "Europe/Helsinki" -> [base |-> 120, trans |-> <<<<5911200, 180>>, <<6173280, 120>>, <<6435360, 180>>, <<6697440, 120>>, <<6959580, 180>>, <<7221660, 120>>, <<7483740, 180>>, <<7755900, 120>>, <<8017980, 180>>, <<8280060, 120>>, <<8542140, 180>>, <<8804220, 120>>, <<9066300, 180>>, <<9328380, 120>>, <<9590460, 180>>, <<9852540, 120>>, <<10114620, 180>>, <<10376700, 120>>, <<10638780, 180>>, <<10910940, 120>>, <<11173020, 180>>, <<11435100, 120>>, <<11697180, 180>>, <<11959260, 120>>, <<12221340, 180>>, <<12483420, 120>>, <<12745500, 180>>, <<13007580, 120>>, <<13269660, 180>>, <<13531740, 120>>, <<13803900, 180>>, <<14106300, 120>>, <<14328060, 180>>, <<14630460, 120>>, <<14852220, 180>>, <<15154620, 120>>, <<15376380, 180>>, <<15688860, 120>>, <<15900540, 180>>, <<16213020, 120>>, <<16424700, 180>>, <<16737180, 120>>, <<16958940, 180>>, <<17261340, 120>>, <<17483100, 180>>, <<17785500, 120>>, <<18007260, 180>>, <<18319740, 120>>, <<18531420, 180>>, <<18843900, 120>>, <<19055580, 180>>, <<19368060, 120>>, <<19579740, 180>>, <<19892220, 120>>, <<20113980, 180>>, <<20416380, 120>>, <<20638140, 180>>, <<20940540, 120>>, <<21162300, 180>>, <<21474780, 120>>, <<21686460, 180>>, <<21998940, 120>>, <<22210620, 180>>, <<22523100, 120>>, <<22744860, 180>>, <<23047260, 120>>, <<23269020, 180>>, <<23571420, 120>>, <<23793180, 180>>, <<24095580, 120>>, <<24317340, 180>>, <<24629820, 120>>, <<24841500, 180>>, <<25153980, 120>>, <<25365660, 180>>, <<25678140, 120>>, <<25899900, 180>>, <<26202300, 120>>, <<26424060, 180>>, <<26726460, 120>>, <<26948220, 180>>, <<27260700, 120>>, <<27472380, 180>>, <<27784860, 120>>, <<27996540, 180>>, <<28309020, 120>>, <<28530780, 180>>, <<28833180, 120>>, <<29054940, 180>>, <<29357340, 120>>, <<29579100, 180>>, <<29881500, 120>>, <<30103260, 180>>, <<30415740, 120>>, <<30627420, 180>>, <<30939900, 120>>, <<31151580, 180>>, <<31464060, 120>>, <<31685820, 180>>, <<31988220, 120>>, <<32209980, 180>>, <<32512380, 120>>, <<32734140, 180>>, <<33046620, 120>>, <<33258300, 180>>, <<33570780, 120>>, <<33782460, 180>>, <<34094940, 120>>, <<34306620, 180>>, <<34619100, 120>>, <<34840860, 180>>, <<35143260, 120>>, <<35365020, 180>>, <<35667420, 120>>>>]
      [] tz = "Europe/Istanbul" -> [base |-> 120, trans |-> <<<<1798500, 180>>, <<2020260, 120>>, <<2232000, 180>>, <<2544420, 120>>, <<2744640, 180>>, <<3068580, 120>>, <<3270240, 180>>, <<3592740, 120>>, <<3814560, 180>>, <<4096740, 120>>, <<4338720, 180>>, <<7140900, 240>>, <<7231560, 180>>, <<7801860, 120>>, <<8046660, 180>>, <<8278500, 120>>, <<8542020, 180>>, <<8804100, 120>>, <<9066180, 180>>, <<9328260, 120>>, <<9590340, 180>>, <<9852420, 120>>, <<10114500, 180>>, <<10376580, 120>>, <<10638660, 180>>, <<10910820, 120>>, <<11172900, 180>>, <<11434980, 120>>, <<11697060, 180>>, <<11959140, 120>>, <<12221220, 180>>, <<12483300, 120>>, <<12735300, 180>>, <<13007460, 120>>, <<13269540, 180>>, <<13531620, 120>>, <<13803780, 180>>, <<14106180, 120>>, <<14327940, 180>>, <<14630340, 120>>, <<14852100, 180>>, <<15154500, 120>>, <<15376260, 180>>, <<15688740, 120>>, <<15900420, 180>>, <<16212900, 120>>, <<16424580, 180>>, <<16737060, 120>>, <<16958820, 180>>, <<17261220, 120>>, <<17482980, 180>>, <<17785380, 120>>, <<18007140, 180>>, <<18319620, 120>>, <<18531300, 180>>, <<18843780, 120>>, <<19055460, 180>>, <<19367940, 120>>, <<19579740, 180>>, <<19892220, 120>>, <<20113980, 180>>, <<20416380, 120>>, <<20638140, 180>>, <<20940540, 120>>, <<21162300, 180>>, <<21474780, 120>>, <<21687900, 180>>, <<21998940, 120>>, <<22210620, 180>>, <<22523100, 120>>, <<22744860, 180>>, <<23047260, 120>>, <<23270460, 180>>, <<23571420, 120>>, <<23793180, 180>>, <<24115740, 120>>, <<24317340, 180>>>>]
      [] tz = "Europe/Lisbon" -> [base |-> 60, trans |-> <<<<3542400, 0>>, <<3804480, 60>>, <<4066560, 0>>, <<4338720, 60>>, <<4600800, 0>>, <<4862880, 60>>, <<5125020, 0>>, <<5387040, 60>>, <<5649180, 0>>, <<5911260, 60>>, <<6173340, 0>>, <<6435420, 60>>, <<6697500, 0>>, <<6959640, 60>>, <<7221660, 0>>, <<7483740, 60>>, <<7755900, 0>>, <<8017980, 60>>, <<8280060, 0>>, <<8542140, 60>>, <<8804220, 0>>, <<9066300, 60>>, <<9328380, 0>>, <<9590460, 60>>, <<9852540, 0>>, <<10114620, 60>>, <<10376700, 0>>, <<10638780, 60>>, <<10910940, 0>>, <<11173020, 60>>, <<11435100, 0>>, <<11697180, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<14106300, 0>>, <<14328060, 60>>, <<14630460, 0>>, <<14852220, 60>>, <<15154620, 0>>, <<15376380, 60>>, <<15688860, 0>>, <<15900540, 60>>, <<16213020, 0>>, <<16424700, 60>>, <<16737180, 0>>, <<16958940, 60>>, <<17261340, 0>>, <<17483100, 60>>, <<17785500, 0>>, <<18007260, 60>>, <<18319740, 0>>, <<18531420, 60>>, <<18843900, 0>>, <<19055580, 60>>, <<19368060, 0>>, <<19579740, 60>>, <<19892220, 0>>, <<20113980, 60>>, <<20416380, 0>>, <<20638140, 60>>, <<20940540, 0>>, <<21162300, 60>>, <<21474780, 0>>, <<21686460, 60>>, <<21998940, 0>>, <<22210620, 60>>, <<22523100, 0>>, <<22744860, 60>>, <<23047260, 0>>, <<23269020, 60>>, <<23571420, 0>>, <<23793180, 60>>, <<24095580, 0>>, <<24317340, 60>>, <<24629820, 0>>, <<24841500, 60>>, <<25153980, 0>>, <<25365660, 60>>, <<25678140, 0>>, <<25899900, 60>>, <<26202300, 0>>, <<26424060, 60>>, <<26726460, 0>>, <<26948220, 60>>, <<27260700, 0>>, <<27472380, 60>>, <<27784860, 0>>, <<27996540, 60>>, <<28309020, 0>>, <<28530780, 60>>, <<28833180, 0>>, <<29054940, 60>>, <<29357340, 0>>, <<29579100, 60>>, <<29881500, 0>>, <<30103260, 60>>, <<30415740, 0>>, <<30627420, 60>>, <<30939900, 0>>, <<31151580, 60>>, <<31464060, 0>>, <<31685820, 60>>, <<31988220, 0>>, <<32209980, 60>>, <<32512380, 0>>, <<32734140, 60>>, <<33046620, 0>>, <<33258300, 60>>, <<33570780, 0>>, <<33782460, 60>>, <<34094940, 0>>, <<34306620, 60>>, <<34619100, 0>>, <<34840860, 60>>, <<35143260, 0>>, <<35365020, 60>>, <<35667420, 0>>>>]
      [] tz = "Europe/London" -> [base |-> 0, trans |-> <<<<-983400, 60>>, <<962040, 0>>, <<1163640, 60>>, <<1486200, 0>>, <<1687800, 60>>, <<2010360, 0>>, <<2211960, 60>>, <<2534520, 0>>, <<2736120, 60>>, <<3058680, 0>>, <<3270360, 60>>, <<3582840, 0>>, <<3794520, 60>>, <<4107000, 0>>, <<4318680, 60>>, <<4641240, 0>>, <<4842840, 60>>, <<5165400, 0>>, <<5367000, 60>>, <<5689560, 0>>, <<5911260, 60>>, <<6213660, 0>>, <<6435420, 60>>, <<6737820, 0>>, <<6959580, 60>>, <<7261980, 0>>, <<7483740, 60>>, <<7796220, 0>>, <<8017980, 60>>, <<8320380, 0>>, <<8542140, 60>>, <<8844540, 0>>, <<9066300, 60>>, <<9368700, 0>>, <<9590460, 60>>, <<9892860, 0>>, <<10114620, 60>>, <<10427100, 0>>, <<10638780, 60>>, <<10951260, 0>>, <<11173020, 60>>, <<11475420, 0>>, <<11697180, 60>>, <<11999580, 0>>, <<12221340, 60>>, <<12523740, 0>>, <<12745500, 60>>, <<13047900, 0>>, <<13269660, 60>>, <<13572060, 0>>, <<13803900, 60>>, <<14106300, 0>>, <<14328060, 60>>, <<14630460, 0>>, <<14852220, 60>>, <<15154620, 0>>, <<15376380, 60>>, <<15688860, 0>>, <<15900540, 60>>, <<16213020, 0>>, <<16424700, 60>>, <<16737180, 0>>, <<16958940, 60>>, <<17261340, 0>>, <<17483100, 60>>, <<17785500, 0>>, <<18007260, 60>>, <<18319740, 0>>, <<18531420, 60>>, <<18843900, 0>>, <<19055580, 60>>, <<19368060, 0>>, <<19579740, 60>>, <<19892220, 0>>, <<20113980, 60>>, <<20416380, 0>>, <<20638140, 60>>, <<20940540, 0>>, <<21162300, 60>>, <<21474780, 0>>, <<21686460, 60>>, <<21998940, 0>>, <<22210620, 60>>, <<22523100, 0>>, <<22744860, 60>>, <<23047260, 0>>, <<23269020, 60>>, <<23571420, 0>>, <<23793180, 60>>, <<24095580, 0>>, <<24317340, 60>>, <<24629820, 0>>, <<24841500, 60>>, <<25153980, 0>>, <<25365660, 60>>, <<25678140, 0>>, <<25899900, 60>>, <<26202300, 0>>, <<26424060, 60>>, <<26726460, 0>>, <<26948220, 60>>, <<27260700, 0>>, <<27472380, 60>>, <<27784860, 0>>, <<27996540, 60>>, <<28309020, 0>>, <<28530780, 60>>, <<28833180, 0>>, <<29054940, 60>>, <<29357340, 0>>, <<29579100, 60>>, <<29881500, 0>>, <<30103260, 60>>, <<30415740, 0>>, <<30627420, 60>>, <<30939900, 0>>, <<31151580, 60>>, <<31464060, 0>>, <<31685820, 60>>, <<31988220, 0>>, <<32209980, 60>>, <<32512380, 0>>, <<32734140, 60>>, <<33046620, 0>>, <<33258300, 60>>, <<33570780, 0>>, <<33782460, 60>>, <<34094940, 0>>, <<34306620, 60>>, <<34619100, 0>>, <<34840860, 60>>, <<35143260, 0>>, <<35365020, 60>>, <<35667420, 0>>>>]
      [] tz = "Europe/Madrid" -> [base |-> 60, trans |-> <<<<2252040, 120>>, <<2504100, 60>>, <<2776200, 120>>, <<3028260, 60>>, <<3280200, 120>>, <<3542340, 60>>, <<3814440, 120>>, <<4066500, 60>>, <<4338780, 120>>, <<4600860, 60>>, <<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Moscow" -> [base |-> 180, trans |-> <<<<5915340, 240>>, <<6178800, 180>>, <<6440940, 240>>, <<6704400, 180>>, <<6966540, 240>>, <<7230000, 180>>, <<7493580, 240>>, <<7755780, 180>>, <<8017860, 240>>, <<8279940, 180>>, <<8542020, 240>>, <<8804100, 180>>, <<9066180, 240>>, <<9328260, 180>>, <<9590340, 240>>, <<9852420, 180>>, <<10114500, 240>>, <<10376580, 180>>, <<10638660, 240>>, <<10910820, 180>>, <<11435040, 120>>, <<11596320, 180>>, <<11697060, 240>>, <<11959140, 180>>, <<12221220, 240>>, <<12483300, 180>>, <<12745380, 240>>, <<13007460, 180>>, <<13269540, 240>>, <<13531620, 180>>, <<13803780, 240>>, <<14106180, 180>>, <<14327940, 240>>, <<14630340, 180>>, <<14852100, 240>>, <<15154500, 180>>, <<15376260, 240>>, <<15688740, 180>>, <<15900420, 240>>, <<16212900, 180>>, <<16424580, 240>>, <<16737060, 180>>, <<16958820, 240>>, <<17261220, 180>>, <<17482980, 240>>, <<17785380, 180>>, <<18007140, 240>>, <<18319620, 180>>, <<18531300, 240>>, <<18843780, 180>>, <<19055460, 240>>, <<19367940, 180>>, <<19579620, 240>>, <<19892100, 180>>, <<20113860, 240>>, <<20416260, 180>>, <<20638020, 240>>, <<20940420, 180>>, <<21162180, 240>>, <<21474660, 180>>, <<21686340, 240>>, <<23571240, 180>>>>]
      [] tz = "Europe/Oslo" -> [base |-> 60, trans |-> <<<<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Paris" -> [base |-> 60, trans |-> <<<<3280320, 120>>, <<3542340, 60>>, <<3814620, 120>>, <<4066620, 60>>, <<4338780, 120>>, <<4600860, 60>>, <<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Prague" -> [base |-> 60, trans |-> <<<<4862940, 120>>, <<5125020, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Rome" -> [base |-> 60, trans |-> <<<<-842460, 120>>, <<-671100, 60>>, <<-308220, 120>>, <<-136860, 60>>, <<215940, 120>>, <<387300, 60>>, <<730020, 120>>, <<911460, 60>>, <<1264260, 120>>, <<1445700, 60>>, <<1798500, 120>>, <<1969860, 60>>, <<2312580, 120>>, <<2494020, 60>>, <<2846820, 120>>, <<3018180, 60>>, <<3370980, 120>>, <<3542340, 60>>, <<3885060, 120>>, <<4066500, 60>>, <<4419300, 120>>, <<4600740, 60>>, <<4943460, 120>>, <<5124900, 60>>, <<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Stockholm" -> [base |-> 60, trans |-> <<<<5397180, 120>>, <<5649180, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Vienna" -> [base |-> 60, trans |-> <<<<5397060, 120>>, <<5649000, 60>>, <<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Warsaw" -> [base |-> 60, trans |-> <<<<3814560, 120>>, <<4066560, 60>>, <<4338720, 120>>, <<4600800, 60>>, <<4862880, 120>>, <<5124960, 60>>, <<5397120, 120>>, <<5649120, 60>>, <<5911200, 120>>, <<6173280, 60>>, <<6435360, 120>>, <<6697440, 60>>, <<6959520, 120>>, <<7221600, 60>>, <<7483680, 120>>, <<7755840, 60>>, <<8017920, 120>>, <<8280000, 60>>, <<8542080, 120>>, <<8804160, 60>>, <<9066240, 120>>, <<9328320, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "Europe/Zurich" -> [base |-> 60, trans |-> <<<<5911260, 120>>, <<6173340, 60>>, <<6435420, 120>>, <<6697500, 60>>, <<6959580, 120>>, <<7221660, 60>>, <<7483740, 120>>, <<7755900, 60>>, <<8017980, 120>>, <<8280060, 60>>, <<8542140, 120>>, <<8804220, 60>>, <<9066300, 120>>, <<9328380, 60>>, <<9590460, 120>>, <<9852540, 60>>, <<10114620, 120>>, <<10376700, 60>>, <<10638780, 120>>, <<10910940, 60>>, <<11173020, 120>>, <<11435100, 60>>, <<11697180, 120>>, <<11959260, 60>>, <<12221340, 120>>, <<12483420, 60>>, <<12745500, 120>>, <<13007580, 60>>, <<13269660, 120>>, <<13531740, 60>>, <<13803900, 120>>, <<14106300, 60>>, <<14328060, 120>>, <<14630460, 60>>, <<14852220, 120>>, <<15154620, 60>>, <<15376380, 120>>, <<15688860, 60>>, <<15900540, 120>>, <<16213020, 60>>, <<16424700, 120>>, <<16737180, 60>>, <<16958940, 120>>, <<17261340, 60>>, <<17483100, 120>>, <<17785500, 60>>, <<18007260, 120>>, <<18319740, 60>>, <<18531420, 120>>, <<18843900, 60>>, <<19055580, 120>>, <<19368060, 60>>, <<19579740, 120>>, <<19892220, 60>>, <<20113980, 120>>, <<20416380, 60>>, <<20638140, 120>>, <<20940540, 60>>, <<21162300, 120>>, <<21474780, 60>>, <<21686460, 120>>, <<21998940, 60>>, <<22210620, 120>>, <<22523100, 60>>, <<22744860, 120>>, <<23047260, 60>>, <<23269020, 120>>, <<23571420, 60>>, <<23793180, 120>>, <<24095580, 60>>, <<24317340, 120>>, <<24629820, 60>>, <<24841500, 120>>, <<25153980, 60>>, <<25365660, 120>>, <<25678140, 60>>, <<25899900, 120>>, <<26202300, 60>>, <<26424060, 120>>, <<26726460, 60>>, <<26948220, 120>>, <<27260700, 60>>, <<27472380, 120>>, <<27784860, 60>>, <<27996540, 120>>, <<28309020, 60>>, <<28530780, 120>>, <<28833180, 60>>, <<29054940, 120>>, <<29357340, 60>>, <<29579100, 120>>, <<29881500, 60>>, <<30103260, 120>>, <<30415740, 60>>, <<30627420, 120>>, <<30939900, 60>>, <<31151580, 120>>, <<31464060, 60>>, <<31685820, 120>>, <<31988220, 60>>, <<32209980, 120>>, <<32512380, 60>>, <<32734140, 120>>, <<33046620, 60>>, <<33258300, 120>>, <<33570780, 60>>, <<33782460, 120>>, <<34094940, 60>>, <<34306620, 120>>, <<34619100, 60>>, <<34840860, 120>>, <<35143260, 60>>, <<35365020, 120>>, <<35667420, 60>>>>]
      [] tz = "NZ" -> [base |-> 720, trans |-> <<<<2543880, 780>>, <<2705160, 720>>, <<3057960, 780>>, <<3249480, 720>>, <<3592200, 780>>, <<3773640, 720>>, <<4116360, 780>>, <<4297800, 720>>, <<4640520, 780>>, <<4821960, 720>>, <<5164680, 780>>, <<5346120, 720>>, <<5688840, 780>>, <<5870280, 720>>, <<6213000, 780>>, <<6404520, 720>>, <<6747240, 780>>, <<6928680, 720>>, <<7271400, 780>>, <<7452840, 720>>, <<7795560, 780>>, <<7977000, 720>>, <<8319720, 780>>, <<8501160, 720>>, <<8843880, 780>>, <<9025320, 720>>, <<9368040, 780>>, <<9559560, 720>>, <<9902280, 780>>, <<10083720, 720>>, <<10396200, 780>>, <<10628040, 720>>, <<10920360, 780>>, <<11152200, 720>>, <<11444520, 780>>, <<11676360, 720>>, <<11968680, 780>>, <<12210600, 720>>, <<12492840, 780>>, <<12734760, 720>>, <<13017000, 780>>, <<13258920, 720>>, <<13541160, 780>>, <<13783080, 720>>, <<14075400, 780>>, <<14307240, 720>>, <<14599560, 780>>, <<14831400, 720>>, <<15123720, 780>>, <<15365640, 720>>, <<15647880, 780>>, <<15889800, 720>>, <<16172040, 780>>, <<16413960, 720>>, <<16706280, 780>>, <<16938120, 720>>, <<17230440, 780>>, <<17462280, 720>>, <<17754600, 780>>, <<17996520, 720>>, <<18278760, 780>>, <<18520680, 720>>, <<18802920, 780>>, <<19044840, 720>>, <<19327080, 780>>, <<19569000, 720>>, <<19851240, 780>>, <<20123400, 720>>, <<20375400, 780>>, <<20647560, 720>>, <<20899560, 780>>, <<21171720, 720>>, <<21423720, 780>>, <<21695880, 720>>, <<21947880, 780>>, <<22220040, 720>>, <<22482120, 780>>, <<22754280, 720>>, <<23006280, 780>>, <<23278440, 720>>, <<23530440, 780>>, <<23802600, 720>>, <<24054600, 780>>, <<24326760, 720>>, <<24578760, 780>>, <<24850920, 720>>, <<25102920, 780>>, <<25375080, 720>>, <<25637160, 780>>, <<25909320, 720>>, <<26161320, 780>>, <<26433480, 720>>, <<26685480, 780>>, <<26957640, 720>>, <<27209640, 780>>, <<27481800, 720>>, <<27733800, 780>>, <<28005960, 720>>, <<28257960, 780>>, <<28540200, 720>>, <<28792200, 780>>, <<29064360, 720>>, <<29316360, 780>>, <<29588520, 720>>, <<29840520, 780>>, <<30112680, 720>>, <<30364680, 780>>, <<30636840, 720>>, <<30888840, 780>>, <<31161000, 720>>, <<31423080, 780>>, <<31695240, 720>>, <<31947240, 780>>, <<32219400, 720>>, <<32471400, 780>>, <<32743560, 720>>, <<32995560, 780>>, <<33267720, 720>>, <<33519720, 780>>, <<33791880, 720>>, <<34043880, 780>>, <<34316040, 720>>, <<34578120, 780>>, <<34850280, 720>>, <<35102280, 780>>, <<35374440, 720>>, <<35626440, 780>>>>]
      [] tz = "Pacific/Auckland" -> [base |-> 720, trans |-> <<<<2543880, 780>>, <<2705160, 720>>, <<3057960, 780>>, <<3249480, 720>>, <<3592200, 780>>, <<3773640, 720>>, <<4116360, 780>>, <<4297800, 720>>, <<4640520, 780>>, <<4821960, 720>>, <<5164680, 780>>, <<5346120, 720>>, <<5688840, 780>>, <<5870280, 720>>, <<6213000, 780>>, <<6404520, 720>>, <<6747240, 780>>, <<6928680, 720>>, <<7271400, 780>>, <<7452840, 720>>, <<7795560, 780>>, <<7977000, 720>>, <<8319720, 780>>, <<8501160, 720>>, <<8843880, 780>>, <<9025320, 720>>, <<9368040, 780>>, <<9559560, 720>>, <<9902280, 780>>, <<10083720, 720>>, <<10396200, 780>>, <<10628040, 720>>, <<10920360, 780>>, <<11152200, 720>>, <<11444520, 780>>, <<11676360, 720>>, <<11968680, 780>>, <<12210600, 720>>, <<12492840, 780>>, <<12734760, 720>>, <<13017000, 780>>, <<13258920, 720>>, <<13541160, 780>>, <<13783080, 720>>, <<14075400, 780>>, <<14307240, 720>>, <<14599560, 780>>, <<14831400, 720>>, <<15123720, 780>>, <<15365640, 720>>, <<15647880, 780>>, <<15889800, 720>>, <<16172040, 780>>, <<16413960, 720>>, <<16706280, 780>>, <<16938120, 720>>, <<17230440, 780>>, <<17462280, 720>>, <<17754600, 780>>, <<17996520, 720>>, <<18278760, 780>>, <<18520680, 720>>, <<18802920, 780>>, <<19044840, 720>>, <<19327080, 780>>, <<19569000, 720>>, <<19851240, 780>>, <<20123400, 720>>, <<20375400, 780>>, <<20647560, 720>>, <<20899560, 780>>, <<21171720, 720>>, <<21423720, 780>>, <<21695880, 720>>, <<21947880, 780>>, <<22220040, 720>>, <<22482120, 780>>, <<22754280, 720>>, <<23006280, 780>>, <<23278440, 720>>, <<23530440, 780>>, <<23802600, 720>>, <<24054600, 780>>, <<24326760, 720>>, <<24578760, 780>>, <<24850920, 720>>, <<25102920, 780>>, <<25375080, 720>>, <<25637160, 780>>, <<25909320, 720>>, <<26161320, 780>>, <<26433480, 720>>, <<26685480, 780>>, <<26957640, 720>>, <<27209640, 780>>, <<27481800, 720>>, <<27733800, 780>>, <<28005960, 720>>, <<28257960, 780>>, <<28540200, 720>>, <<28792200, 780>>, <<29064360, 720>>, <<29316360, 780>>, <<29588520, 720>>, <<29840520, 780>>, <<30112680, 720>>, <<30364680, 780>>, <<30636840, 720>>, <<30888840, 780>>, <<31161000, 720>>, <<31423080, 780>>, <<31695240, 720>>, <<31947240, 780>>, <<32219400, 720>>, <<32471400, 780>>, <<32743560, 720>>, <<32995560, 780>>, <<33267720, 720>>, <<33519720, 780>>, <<33791880, 720>>, <<34043880, 780>>, <<34316040, 720>>, <<34578120, 780>>, <<34850280, 720>>, <<35102280, 780>>, <<35374440, 720>>, <<35626440, 780>>>>]
      [] tz = "Pacific/Chatham" -> [base |-> 765, trans |-> <<<<2543880, 825>>, <<2705160, 765>>, <<3057960, 825>>, <<3249480, 765>>, <<3592200, 825>>, <<3773640, 765>>, <<4116360, 825>>, <<4297800, 765>>, <<4640520, 825>>, <<4821960, 765>>, <<5164680, 825>>, <<5346120, 765>>, <<5688840, 825>>, <<5870280, 765>>, <<6213000, 825>>, <<6404520, 765>>, <<6747240, 825>>, <<6928680, 765>>, <<7271400, 825>>, <<7452840, 765>>, <<7795560, 825>>, <<7977000, 765>>, <<8319720, 825>>, <<8501160, 765>>, <<8843880, 825>>, <<9025320, 765>>, <<9368040, 825>>, <<9559560, 765>>, <<9902280, 825>>, <<10083720, 765>>, <<10396200, 825>>, <<10628040, 765>>, <<10920360, 825>>, <<11152200, 765>>, <<11444520, 825>>, <<11676360, 765>>, <<11968680, 825>>, <<12210600, 765>>, <<12492840, 825>>, <<12734760, 765>>, <<13017000, 825>>, <<13258920, 765>>, <<13541160, 825>>, <<13783080, 765>>, <<14075400, 825>>, <<14307240, 765>>, <<14599560, 825>>, <<14831400, 765>>, <<15123720, 825>>, <<15365640, 765>>, <<15647880, 825>>, <<15889800, 765>>, <<16172040, 825>>, <<16413960, 765>>, <<16706280, 825>>, <<16938120, 765>>, <<17230440, 825>>, <<17462280, 765>>, <<17754600, 825>>, <<17996520, 765>>, <<18278760, 825>>, <<18520680, 765>>, <<18802920, 825>>, <<19044840, 765>>, <<19327080, 825>>, <<19569000, 765>>, <<19851240, 825>>, <<20123400, 765>>, <<20375400, 825>>, <<20647560, 765>>, <<20899560, 825>>, <<21171720, 765>>, <<21423720, 825>>, <<21695880, 765>>, <<21947880, 825>>, <<22220040, 765>>, <<22482120, 825>>, <<22754280, 765>>, <<23006280, 825>>, <<23278440, 765>>, <<23530440, 825>>, <<23802600, 765>>, <<24054600, 825>>, <<24326760, 765>>, <<24578760, 825>>, <<24850920, 765>>, <<25102920, 825>>, <<25375080, 765>>, <<25637160, 825>>, <<25909320, 765>>, <<26161320, 825>>, <<26433480, 765>>, <<26685480, 825>>, <<26957640, 765>>, <<27209640, 825>>, <<27481800, 765>>, <<27733800, 825>>, <<28005960, 765>>, <<28257960, 825>>, <<28540200, 765>>, <<28792200, 825>>, <<29064360, 765>>, <<29316360, 825>>, <<29588520, 765>>, <<29840520, 825>>, <<30112680, 765>>, <<30364680, 825>>, <<30636840, 765>>, <<30888840, 825>>, <<31161000, 765>>, <<31423080, 825>>, <<31695240, 765>>, <<31947240, 825>>, <<32219400, 765>>, <<32471400, 825>>, <<32743560, 765>>, <<32995560, 825>>, <<33267720, 765>>, <<33519720, 825>>, <<33791880, 765>>, <<34043880, 825>>, <<34316040, 765>>, <<34578120, 825>>, <<34850280, 765>>, <<35102280, 825>>, <<35374440, 765>>, <<35626440, 825>>>>]
      [] tz = "Pacific/Honolulu" -> [base |-> -600, trans |-> <<>>]
      [] tz = "UTC" -> [base |-> 0, trans |-> <<>>]
=============================================================================
