"""What each property's check runs: operations that must occur, sessions per operation (quick, thorough) and design models."""


def p(ops, quick=250, thorough=2000, **kw):
    d = {"ops": ops.split(), "blocks": (quick, thorough)}
    d.update(kw)
    return d


PLAN = {
    "C01": p("cldj caldj clyd calyd", 400, models={"quick": [("CalendarMC", "CalendarMC.cfg", 400000)]}),
    "C02": p("djcl djcal", 800, models={"quick": [("CalendarMC", "CalendarMC.cfg", 400000)]}),
    "T01": p("dat dtt dt", 500, models={"quick": [("TimeMC", "TimeMC.cfg", 200000)]}),
    "T02": p("gmst gmsta eqeqx", 300, models={"quick": [("TimeMC", "TimeMC.cfg", 200000)]}),
    "T04": p("epb epb2d epj epj2d epco", 300, models={"quick": [("TimeMC", "TimeMC.cfg", 200000)]}),
    "S01": p("dd2tf cd2tf dr2tf cr2tf dr2af cr2af", 300, models={"quick": [("SexagesimalMC", "SexagesimalMC.cfg", 100000)]}),
    "S02": p("daf2r caf2r dtf2d ctf2d dtf2r ctf2r", 300, models={"quick": [("SexagesimalMC", "SexagesimalMC.cfg", 100000)]}),
    "A01": p("range drange ranorm dranrm", 400, models={"quick": [("RangeMC", "RangeMC.cfg", 9000)]}),
    "V01": p("vdv dvdv vxv dvxv vn dvn mxv dmxv imxv dimxv mxm dmxm", 150, models={"quick": [("VectorsMC", "VectorsMC.cfg", 2000)]}),
    "V02": p("av2m dav2m m2av dm2av euler deuler", 250, models={"quick": [("VectorsMC", "VectorsMC.cfg", 2000)]}),
    "V03": p("cs2c dcs2c cc2s dcc2s cs2c6 ds2c6 cc62s dc62s", 250, models={"quick": [("VectorsMC", "VectorsMC.cfg", 2000)]}),
    "V04": p("sep dsep sepv dsepv bear dbear pav dpav", 250, models={"quick": [("VectorsMC", "VectorsMC.cfg", 2000)]}),
    "H01": p("e2h de2h h2e dh2e zd pa", 250, models={"quick": [("HorizonMC", "HorizonMC.cfg", 25000)]}),
    "H02": p("altaz pda2h pdq2h", 500, models={"quick": [("HorizonMC", "HorizonMC.cfg", 25000)]}),
    "G01": p("s2tp ds2tp v2tp dv2tp tp2s dtp2s tp2v dtp2v tps2c dtps2c tpv2c dtpv2c", 150, models={"quick": [("TangentMC", "TangentMC.cfg", 5000)]}),
    "E01": p("prec precl prebn preces", 300, models={"quick": [("SkyMC", "SkyMC.cfg", 3000)]}),
    "E02": p("nutc nutc80 nut prenut", 100, models={"quick": [("NutationMC", "NutationMC.cfg", 1000)]}),
    "T03": p("rcc", 600, models={"quick": [("NutationMC", "NutationMC.cfg", 1000)]}),
    "F01": p("eqgal galeq galsup supgal ecmat eqecl ecleq eg50 ge50 etrms addet subet", 150, models={"quick": [("SkyMC", "SkyMC.cfg", 3000)]}),
    "K01": p("pm", 1500, models={"quick": [("MotionMC", "MotionMC.cfg", 2000)]}),
    "P01": p("epv evp earth ecor", 150, models={"quick": [("EphemerisMC", "EphemerisMC.cfg", 500)]}),
    "P02": p("moon dmoon", 400, models={"quick": [("EphemerisMC", "EphemerisMC.cfg", 500)]}),
    "O01": p("geoc pvobs polmo", 600, models={"quick": [("SiteMC", "SiteMC.cfg", 1000)]}),
    "O02": p("rverot rvgalc rvlg rvlsrd rvlsrk", 300, models={"quick": [("SiteMC", "SiteMC.cfg", 1000)]}),
    "O03": p("obs", 150, models={"quick": [("CatalogueMC", "CatalogueMC.cfg", 11000)]}),
    "R01": p("refro refco refcoq atmdsp", 60, models={"quick": [("RefractionMC", "RefractionMC.cfg", 1000)]}),
    "R02": p("refz refv airmas", 500, models={"quick": [("RefractionMC", "RefractionMC.cfg", 1000)]}),
    "L01": p("dmat smat dmat3", 300, models={"quick": [("EliminationMC", "EliminationMC.cfg", 30000)]}),
    "L02": p("svd svdsol svdcov", 200, models={"quick": [("SvdMC", "SvdMC.cfg", 9000)]}),
    "X01": p("fitxy", 900, models={"quick": [("PlateMC", "PlateMC.cfg", 2500)]}),
    "N01": p("combn permut", 300, gen="GenEnum", models={"quick": [("EnumeratorsMC", "EnumeratorsMC.cfg", 800)]}),
    "N02": p("random gresid random_n gresid_n random_far gresid_far", 200, 1000, gen="GenDeviates", check="TraceDeviates", single_replay=False, models={"quick": [("StreamMC", "StreamMC.cfg", 200)]}),
    "N03": p("version evp epv dmoon moon nutc refro svd fitxy obs dat rcc", 200, 1000, gen="GenHistory", check="TraceHistory", single_replay=False, models={"quick": [("HistoryMC", "HistoryMC.cfg", 400000)]}),
    "X02": p("xy2xy pxy invf dcmpf pcd unpcd", 200, models={"quick": [("PlateMC", "PlateMC.cfg", 2500)]}),
    "N04": p("dvn dh2e dsep precl epv dmoon nutc refro random gresid random_n gresid_n", 60, 400, gen="GenThreads", check="TraceThreads", single_replay=False, build={"SCHED": "1"},
             models={"quick": [("ThreadsMC", "ThreadsMC.cfg", 50000)]},
             assumptions=["threads switch only at accesses of memory that may be shared, at function entries and at the ends of calls; switches inside libm and libstdc++ are not explored",
                          "sequentially consistent memory"]),
    "U01": p("obj_new obj_set obj_copy obj_view", 300, 3000, gen="GenValues", check="TraceValues", models={"quick": [("ValuesMC", "ValuesMC.cfg", 20000)]}),
    "W01": p("version wait wait_signals", 12, 60, models={"quick": [("WaitMC", "WaitMC.cfg", 20000)]}, gen="GenServices", check="TraceServices", rounds=1, must_repeat=True),
    "N05": p("eqecl& ecleq& eqgal& galeq& galsup& supgal& eg50& ge50& addet& subet& pm& pm&& tp2s& dtp2s& tp2v& dtp2v& vxv dvxv vn dvn mxv dmxv imxv dimxv mxm dmxm refv invf", 60, 800, gen="GenSharing", check="TraceSharing", models={"quick": [("SharingMC", "SharingMC.cfg", 100000)]}),
}
