------------------------------ MODULE Library -------------------------------
(***************************************************************************)
(* The whole library: which operations belong to which property, what each *)
(* call may return, and how its arguments are drawn.                       *)
(***************************************************************************)
EXTENDS Calendar, TimeScales, Sexagesimal, Vectors, Horizon, TangentPlane, Precession, Frames, Rcc, Earth, Moon, Observer, Observatories, Refraction, LinearSystems, Svd, Plate, Combinatorics

PropOps == [
    C01 |-> << "cldj", "caldj", "clyd", "calyd" >>,
    C02 |-> << "djcl", "djcal" >>,
    T01 |-> << "dat", "dtt", "dt" >>,
    T02 |-> << "gmst", "gmsta", "eqeqx" >>,
    T04 |-> << "epb", "epb2d", "epj", "epj2d", "epco" >>,
    S01 |-> << "dd2tf", "cd2tf", "dr2tf", "cr2tf", "dr2af", "cr2af" >>,
    S02 |-> << "daf2r", "caf2r", "dtf2d", "ctf2d", "dtf2r", "ctf2r" >>,
    A01 |-> << "range", "drange", "ranorm", "dranrm" >>,
    V01 |-> << "vdv", "dvdv", "vxv", "dvxv", "vn", "dvn", "mxv", "dmxv", "imxv", "dimxv", "mxm", "dmxm" >>,
    V02 |-> << "av2m", "dav2m", "m2av", "dm2av", "euler", "deuler" >>,
    V03 |-> << "cs2c", "dcs2c", "cc2s", "dcc2s", "cs2c6", "ds2c6", "cc62s", "dc62s" >>,
    V04 |-> << "sep", "dsep", "sepv", "dsepv", "bear", "dbear", "pav", "dpav" >>,
    H01 |-> << "e2h", "de2h", "h2e", "dh2e", "zd", "pa" >>,
    H02 |-> << "altaz", "pda2h", "pdq2h" >>,
    G01 |-> << "s2tp", "ds2tp", "v2tp", "dv2tp", "tp2s", "dtp2s", "tp2v", "dtp2v", "tps2c", "dtps2c", "tpv2c", "dtpv2c" >>,
    E01 |-> << "prec", "precl", "prebn", "preces" >>,
    E02 |-> << "nutc", "nutc80", "nut", "prenut" >>,
    T03 |-> << "rcc" >>,
    F01 |-> << "eqgal", "galeq", "galsup", "supgal", "ecmat", "eqecl", "ecleq", "eg50", "ge50", "etrms", "addet", "subet" >>,
    K01 |-> << "pm" >>,
    P01 |-> << "epv", "evp", "earth", "ecor" >>,
    P02 |-> << "moon", "dmoon" >>,
    O01 |-> << "geoc", "pvobs", "polmo" >>,
    O02 |-> << "rverot", "rvgalc", "rvlg", "rvlsrd", "rvlsrk" >>,
    O03 |-> << "obs" >>,
    R01 |-> << "refro", "refco", "refcoq", "atmdsp" >>,
    R02 |-> << "refz", "refv", "airmas" >>,
    L01 |-> << "dmat", "smat", "dmat3" >>,
    L02 |-> << "svd", "svdsol", "svdcov" >>,
    X01 |-> << "fitxy" >>,
    X02 |-> << "xy2xy", "pxy", "invf", "dcmpf", "pcd", "unpcd" >> ]

Accept(op, a, r) ==
    CASE op \in CalendarOps -> CalendarAccept(op, a, r)
      [] op \in TimeOps -> TimeAccept(op, a, r)
      [] op \in SexOps -> SexAccept(op, a, r)
      [] op \in VecOps -> VecAccept(op, a, r)
      [] op \in HorizonOps -> HorizonAccept(op, a, r)
      [] op \in TangentOps -> TangentAccept(op, a, r)
      [] op \in PrecOps -> PrecAccept(op, a, r)
      [] op \in FrameOps -> FrameAccept(op, a, r)
      [] op \in RccOps -> RccAccept(op, a, r)
      [] op \in EphEarthOps -> EphEarthAccept(op, a, r)
      [] op \in LunarOps -> LunarAccept(op, a, r)
      [] op \in ObserverOps -> ObserverAccept(op, a, r)
      [] op \in SiteOps -> SiteAccept(op, a, r)
      [] op \in RefrOps -> RefrAccept(op, a, r)
      [] op \in LinOps -> LinAccept(op, a, r)
      [] op \in SvdOps -> SvdAccept(op, a, r)
      [] op \in PlateOps -> PlateAccept(op, a, r)
      [] op \in EnumOps -> EnumAccept(op, a, r)
Gen(op, k) ==
    CASE op \in CalendarOps -> CalendarGen(op, k)
      [] op \in TimeOps -> TimeGen(op, k)
      [] op \in SexOps -> SexGen(op, k)
      [] op \in VecOps -> VecGen(op, k)
      [] op \in HorizonOps -> HorizonGen(op, k)
      [] op \in TangentOps -> TangentGen(op, k)
      [] op \in PrecOps -> PrecGen(op, k)
      [] op \in FrameOps -> FrameGen(op, k)
      [] op \in RccOps -> RccGen(op, k)
      [] op \in EphEarthOps -> EphEarthGen(op, k)
      [] op \in LunarOps -> LunarGen(op, k)
      [] op \in ObserverOps -> ObserverGen(op, k)
      [] op \in SiteOps -> SiteGen(op, k)
      [] op \in RefrOps -> RefrGen(op, k)
      [] op \in LinOps -> LinGen(op, k)
      [] op \in SvdOps -> SvdGen(op, k)
      [] op \in PlateOps -> PlateGen(op, k)
      [] op \in EnumOps -> EnumGen(op, k)
Directed(op) ==
    CASE op \in CalendarOps -> CalendarDirected(op)
      [] op \in TimeOps -> TimeDirected(op)
      [] op \in SexOps -> SexDirected(op)
      [] op \in VecOps -> VecDirected(op)
      [] op \in HorizonOps -> HorizonDirected(op)
      [] op \in TangentOps -> TangentDirected(op)
      [] op \in PrecOps -> PrecDirected(op)
      [] op \in FrameOps -> FrameDirected(op)
      [] op \in RccOps -> RccDirected(op)
      [] op \in EphEarthOps -> EphEarthDirected(op)
      [] op \in LunarOps -> LunarDirected(op)
      [] op \in ObserverOps -> ObserverDirected(op)
      [] op \in SiteOps -> SiteDirected(op)
      [] op \in RefrOps -> RefrDirected(op)
      [] op \in LinOps -> LinDirected(op)
      [] op \in SvdOps -> SvdDirected(op)
      [] op \in PlateOps -> PlateDirected(op)
      [] op \in EnumOps -> EnumDirected(op)
NoMix == CalendarNoMix \cup TimeNoMix \cup SexNoMix \cup VecNoMix \cup HorizonNoMix \cup TangentNoMix \cup PrecNoMix \cup FrameNoMix \cup RccNoMix \cup EphEarthNoMix \cup LunarNoMix \cup ObserverNoMix \cup SiteNoMix \cup RefrNoMix \cup LinNoMix \cup SvdNoMix \cup PlateNoMix \cup EnumNoMix
=============================================================================
