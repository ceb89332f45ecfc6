PVT = [dict(module="PVTypesMC", cfg="PVTypesMC.cfg", min=5000), dict(module="PVTypesMC", cfg="PVTypesDeep.cfg", min=6000, tier="thorough", workers=8, timeout=840)]
TRANS = [dict(module="Transport",cfg="Transport.cfg",min=5000,workers=2),dict(module="Transport",cfg="TransportDeep.cfg",tier="thorough",min=100000)]
BIG = [dict(module="BigMC",cfg="BigMC.cfg",min=1000,workers=4), dict(module="BigMC",cfg="BigDeep.cfg",min=20000,tier="thorough",workers=8)]
HEAP = [dict(module='PVHeapMC',cfg='PVHeapMC.cfg',min=5000), dict(module='PVHeapMC',cfg='PVHeapDeep.cfg',min=90000,tier='thorough',workers=8)]
TIM = [dict(module='TimerImpl',cfg='TimerImpl.cfg',min=100000,workers=4), dict(module='TimerImpl',cfg='TimerImplLazy.cfg',min=100000,workers=4), dict(module='TimerImpl',cfg='TimerImplDeep.cfg',min=1000000,tier='thorough',workers=8)]
PROPS = {
"C01": dict(
  mc=[dict(module="BitSetsMC", cfg="BitSetsMC.cfg", min=1000), dict(module="BitSetsMC", cfg="BitSetsGenQ.cfg", gen="scripts", workers=1, tier="quick"), dict(module="BitSetsMC", cfg="BitSetsGen.cfg", gen="scripts", workers=1, tier="thorough")],
  trace=[dict(driver="bitset", module="BitSetsTrace", ops=["set","clear","flip","setv","clearall","and","or","xor","assign","copy","swap","orand","init","new"]),
         dict(driver="bitset", mode="script", script="scripts", module="BitSetsTrace")]),
"C02": dict(mc=[dict(module="WireMC",cfg="WireMC.cfg",min=4000,workers=1),dict(module="Transport",cfg="Transport.cfg",min=5000,workers=2),dict(module="Transport",cfg="TransportDeep.cfg",tier="thorough",min=100000)],trace=[dict(driver="wire", mode="bits", module="WireTrace", ops=["bits","bitsdec"])]),
"C03": dict(mc=[dict(module="ByteBufMC",cfg="ByteBufMC.cfg",min=1000)],
  trace=[dict(driver="bytebuf",module="ByteBufTrace",ops=["clear","flip","rewind","setpos","setlim","endian","put","get","putat","getat","puta","geta","putb","getb","getbool","getboolat"])]),
"C04": dict(mc=[dict(module="WireMC",cfg="WireMC.cfg",min=4000,workers=1),dict(module="Transport",cfg="Transport.cfg",min=5000,workers=2),dict(module="Transport",cfg="TransportDeep.cfg",tier="thorough",min=100000)],trace=[dict(driver="wire", mode="prim", module="WireTrace", ops=["size","sizedec","str","sub","strdec"])]),
"C09": dict(trace=[dict(driver="wire", mode="status", module="WireTrace", ops=["make","reset","assign","max","wire"])]),
"C05": dict(mc=PVT+TRANS,trace=[dict(driver="pvwire", extra_src=["pvh.cpp"], mode="val", module="PVWireTrace", scale=4.0, ops=["val"])]),
"C06": dict(mc=PVT+TRANS,trace=[dict(driver="pvwire", extra_src=["pvh.cpp"], mode="mask", module="PVWireTrace", scale=4.0, ops=["mask","slice"])]),
"C07": dict(mc=PVT,trace=[dict(driver="pvwire", extra_src=["pvh.cpp"], mode="type", module="PVWireTrace", scale=2.0, ops=["type"])]),
"C08": dict(mc=PVT,trace=[dict(driver="malform", extra_src=["pvh.cpp"], mode="small", module="MalformTrace", ops=["type","val","mask","bits","str","status"]),
  dict(driver="malform", extra_src=["pvh.cpp"], mode="giant", module="MalformTrace", ops=["type","val","mask","bits","str","status"]),
  dict(driver="malform", extra_src=["pvh.cpp"], mode="deep", flavor="plain", module="MalformTrace", ops=["deep"])]),
"C13": dict(mc=PVT,trace=[dict(driver="pvops", extra_src=["pvh.cpp"], mode="tree", module="PVOpsTrace", scale=4.0, ops=["tree"])]),
"C18": dict(mc=PVT,trace=[dict(driver="pvops", extra_src=["pvh.cpp"], mode="eq", module="PVOpsTrace", scale=4.0, ops=["eq"])]),
"C31": dict(mc=[TIM[0],TIM[2]],trace=[dict(driver="timers",extra_src=["coop.cpp"],flavor="plain",mode="run",module="TimerTrace",ops=["call","ret","cbBegin","cbEnd","stopped","tick","End"]),
  dict(driver="timers",extra_src=["coop.cpp"],flavor="fine",mode="finerun",module="TimerTrace",ops=["call","ret","cbBegin","cbEnd","stopped","tick","End"])]),
"C32": dict(mc=TIM[1:],trace=[dict(driver="timers",extra_src=["coop.cpp"],flavor="plain",mode="close",module="TimerTrace",ops=["call","ret","cbBegin","cbEnd","stopped","tick","End"]),
  dict(driver="timers",extra_src=["coop.cpp"],flavor="fine",mode="fineclose",module="TimerTrace",ops=["call","ret","cbBegin","cbEnd","stopped","tick","End"])]),
"C33": dict(mc=[dict(module="SyncMC",cfg="SyncMC.cfg",min=10000),dict(module="SyncMC",cfg="SyncDeep.cfg",min=100000,tier="thorough")],trace=[dict(driver="sync",extra_src=["coop.cpp"],flavor="plain",module="SyncTrace",ops=["call","ret","begin","end","tick","End"]),
  dict(driver="sync",extra_src=["coop.cpp"],flavor="fine",mode="fine",module="SyncTrace",ops=["call","ret","begin","end","tick","End"])]),
"C27": dict(mc=BIG,trace=[dict(driver="stamps", module="TimeStampTrace", ops=["new","put","putms","time_t","add","sub","addf","subf","copy","settag","cmp","diff","read","now"])]),
"C28": dict(mc=[dict(module="HelpersMC",cfg="HelpersMC.cfg",min=1000),dict(module="HelpersMC",cfg="HelpersDeep.cfg",min=10000,tier="thorough",workers=8)],trace=[dict(driver="helpers", extra_src=["pvh.cpp"], module="HelpersTrace", scale=2.0, ops=["attach","detach","isatt","get","set","setindex","setchoices","choice","put","freeze"])]),
"C34": dict(mc=[dict(module="RefTrackMC",cfg="RefTrackMC.cfg",min=5000),dict(module="RefTrackMC",cfg="RefTrackDeep.cfg",min=1000000,tier="thorough",workers=8)],trace=[dict(driver="reftrack",extra_src=["pvh.cpp","coop.cpp"],mode="run",module="RefTrackTrace",flavor="plain",ops=["reg","unreg","count","read","snap","diff","at","swap","print","text","obj","conc"]),
  dict(driver="reftrack",extra_src=["pvh.cpp","coop.cpp"],mode="monitor",module="RefTrackTrace",flavor="plain",ops=["mstart","mstop","mrun","show","asleep"]),
  dict(driver="reftrack",extra_src=["pvh.cpp","coop.cpp"],mode="conc",module="RefTrackTrace",flavor="fine",ops=["conc","shared"])]),
"C35": dict(mc=[dict(module="DebugPtrMC",cfg="DebugPtrMC.cfg",min=1000),dict(module="DebugPtrMC",cfg="DebugPtrDeep.cfg",min=20000,tier="thorough",workers=8)],trace=[dict(driver="debugptr",extra_src=["coop.cpp"],mode="threads",flavor="fine",module="DebugPtrTrace",ops=["conc"]),
  dict(driver="debugptr",extra_src=["coop.cpp"],module="DebugPtrTrace",ops=["new","alias","null","copy","assign","cast","badcast","drop","swap","weak","wcopy","wreset","wdrop","lock","fromweak","sft","assignobj","cmp"])]),
"C10": dict(mc=[dict(module="SharedVecMC",cfg="SharedVecMC.cfg",min=10000,workers=4),dict(module="SharedVecMC",cfg="SharedVecDeep.cfg",min=20000,tier="thorough",workers=8)],trace=[dict(driver="sharedvec",extra_src=["pvh.cpp"],module="SharedVecTrace", scale=2.0,ops=["new","drop","copy","move","swap","slice","set","reserve","resize","resizev","push","pop","unique","freeze","thaw","cast","convert","at","ends","cmp","bomb"])]),
"C16": dict(mc=[dict(module="ScalarArrMC",cfg="ScalarArrMC.cfg",min=500,workers=2),dict(module="ScalarArrMC",cfg="ScalarArrDeep.cfg",min=5000,tier="thorough",workers=8)],trace=[dict(driver="scalararr",extra_src=["pvh.cpp"],module="ScalarArrTrace", scale=2.0,ops=["new","setlen","setcap","capmut","immut","replace","swap","reuse","copy","copyx","get","at","view"])]),
"C11": dict(mc=[dict(module="FieldCacheMC",cfg="FieldCacheMC.cfg",min=1000,workers=2),dict(module="FieldCacheMC",cfg="FieldCacheDeep.cfg",min=20000,tier="thorough",workers=8)],
  trace=[dict(driver="fields",extra_src=["pvh.cpp","coop.cpp"],mode="cache",module="FieldsTrace",ops=["mk","drop","cmp","badd","bmake"]),
         dict(driver="fields",extra_src=["pvh.cpp","coop.cpp"],mode="threads",flavor="plain",module="FieldsTrace",ops=["mk","drop","quiet"]),
         dict(driver="fields",extra_src=["pvh.cpp","coop.cpp"],mode="threadsfine",flavor="fine",module="FieldsTrace",ops=["mk","drop","quiet"])]),
"C12": dict(mc=[dict(module="FieldsMC",cfg="FieldsMC.cfg",min=10000,workers=4),dict(module="FieldsMC",cfg="FieldsDeep.cfg",min=100000,tier="thorough",workers=8)],
  trace=[dict(driver="fields",extra_src=["pvh.cpp","coop.cpp"],mode="build",module="FieldsTrace",ops=["mk","drop","cmp","bnew","bid","badd","bnest","bend","bmake","look","pos"])]),
"C19": dict(mc=[dict(module="ConvsMC",cfg="ConvsMC.cfg",min=5000,workers=4),dict(module="ConvsMC",cfg="ConvsDeep.cfg",min=50000,tier="thorough",workers=8)],trace=[dict(driver="convs",extra_src=["pvh.cpp"],module="ConvsTrace",ops=["cv"])]),
"C30": dict(mc=[dict(module="AnysMC",cfg="AnysMC.cfg",min=300,workers=2),dict(module="AnysMC",cfg="AnysDeep.cfg",min=2000,tier="thorough",workers=4)],trace=[dict(driver="anys",extra_src=["pvh.cpp","leak.cpp"],module="AnysTrace", scale=2.0,ops=["put","copy","move","swap","clear","refset","ref","as","print","gone"])]),
"C20": dict(mc=[dict(module="ConvListsMC",cfg="ConvListsMC.cfg",min=10000,workers=3),dict(module="ConvListsMC",cfg="ConvListsDeep.cfg",min=100000,tier="thorough",workers=8)],trace=[dict(driver="convlists",extra_src=["pvh.cpp"],module="ConvListsTrace",ops=["toarr","fromarr","list","back","struct","get","put"])]),
"C21": dict(mc=[dict(module="SubCopyMC",cfg="SubCopyMC.cfg",min=5000,workers=2),dict(module="SubCopyMC",cfg="SubCopyDeep.cfg",min=50000,tier="thorough",workers=8)],trace=[dict(driver="subcopy",extra_src=["pvh.cpp"],module="SubCopyTrace",ops=["sub"])]),
"C23": dict(mc=[dict(module="RequestsMC",cfg="RequestsMC.cfg",min=5000,workers=3),dict(module="RequestsMC",cfg="RequestsDeep.cfg",min=50000,tier="thorough",workers=8)],trace=[dict(driver="requests",extra_src=["pvh.cpp"],module="RequestsTrace", scale=2.0,ops=["req"])]),
"C24": dict(mc=[dict(module="ReqMapMC",cfg="ReqMapMC.cfg",min=3000,workers=3),dict(module="ReqMapMC",cfg="ReqMapDeep.cfg",min=50000,tier="thorough",workers=8)],trace=[dict(driver="reqmap",extra_src=["pvh.cpp"],module="ReqMapTrace", scale=2.0,ops=["compute","reset","swap","assign","build","copy"])]),
"C25": dict(mc=[dict(module="JsonMC",cfg="JsonMC.cfg",min=30000,workers=3),dict(module="JsonMC",cfg="JsonDeep.cfg",min=400000,tier="thorough",workers=8)],trace=[dict(driver="jsondoc",extra_src=["pvh.cpp"],mode="out",module="JsonTrace",ops=["print","back","any","bigulong"])]),
"C26": dict(mc=[dict(module="JsonMC",cfg="JsonMC.cfg",min=30000,workers=3),dict(module="JsonMC",cfg="JsonDeep.cfg",min=400000,tier="thorough",workers=8)],trace=[dict(driver="jsondoc",extra_src=["pvh.cpp"],mode="in",module="JsonTrace",ops=["into","any","io","deepany"])]),
"C29": dict(mc=[dict(module="ValueBMC",cfg="ValueBMC.cfg",min=10000,workers=3),dict(module="ValueBMC",cfg="ValueBDeep.cfg",min=50000,tier="thorough",workers=8)],trace=[dict(driver="valueb",extra_src=["pvh.cpp","leak.cpp"],module="ValueBTrace", scale=2.0,ops=["clone","add","struct","nest","end","build","done"])]),
"C37": dict(mc=[dict(module="StdMC",cfg="StdMC.cfg",min=800,workers=2)],trace=[dict(driver="stdf",extra_src=["pvh.cpp"],module="StdTrace",ops=["type","value","enum","parts"])]),
"C38": dict(mc=[dict(module="TextMC",cfg="TextMC.cfg",min=18000,workers=2),dict(module="TextMC",cfg="TextDeep.cfg",min=100000,tier="thorough",workers=8)],trace=[dict(driver="text",extra_src=["pvh.cpp"],module="TextTrace",ops=["esc","type","dump","elem","raw","nt","json"])]),
"C39": dict(mc=[dict(module="NamesMC",cfg="NamesMC.cfg",min=10000,workers=2),dict(module="NamesMC",cfg="NamesDeep.cfg",min=500000,tier="thorough",workers=8)],trace=[dict(driver="names",extra_src=["pvh.cpp"],module="NamesTrace",ops=["class","kind","parse","alloc","sev","stat","words","alarm","guess","make","clone","parts","nothing","assign"])]),
"C40": dict(mc=[dict(module="ReportMC",cfg="ReportMC.cfg",min=6000,workers=2),dict(module="ReportMC",cfg="ReportDeep.cfg",min=100000,tier="thorough",workers=8)],trace=[dict(driver="report",extra_src=["pvh.cpp"],module="ReportTrace",ops=["throw","equal","differ","true","text","show","throws","field","array"])]),
"C22": dict(mc=PVT,trace=[dict(driver="pvops", extra_src=["pvh.cpp"], mode="compress", module="PVOpsTrace", scale=4.0, ops=["compress"])]),
}
for _p,_m,_o in (("C15","union",["new","select","selname","set","setname","setcur","put","copy","decode","clone"]),("C17","objarr",["append","remove","compress","setcap","setlen","swap","replace","view","copy","decode"]),
                 ("C14","copy",["copy","copyu","copym","clone","decode","put","build","append","set"]),("C36","post",["post","handler","freeze","put","replace","set","select","copy","setlen","setcap","swap"])):
    PROPS[_p]=dict(mc=HEAP,trace=[dict(driver="heap",extra_src=["pvh.cpp"],mode=_m,module="PVHeapTrace", scale=2.0,ops=_o)])
