/* generated by tools/genabi.py */
ST0(V)
ST0(W)
ST0(I)
ST0(D)
ST0(F)
ST1(V,W)
ST1(W,W)
ST1(I,W)
ST1(D,W)
ST1(F,W)
ST1(V,I)
ST1(W,I)
ST1(I,I)
ST1(D,I)
ST1(F,I)
ST1(V,D)
ST1(W,D)
ST1(I,D)
ST1(D,D)
ST1(F,D)
ST1(V,F)
ST1(W,F)
ST1(I,F)
ST1(D,F)
ST1(F,F)
ST2(V,W,W)
ST2(W,W,W)
ST2(I,W,W)
ST2(D,W,W)
ST2(F,W,W)
ST2(V,W,I)
ST2(W,W,I)
ST2(I,W,I)
ST2(D,W,I)
ST2(F,W,I)
ST2(V,W,D)
ST2(W,W,D)
ST2(I,W,D)
ST2(D,W,D)
ST2(F,W,D)
ST2(V,W,F)
ST2(W,W,F)
ST2(I,W,F)
ST2(D,W,F)
ST2(F,W,F)
ST2(V,I,W)
ST2(W,I,W)
ST2(I,I,W)
ST2(D,I,W)
ST2(F,I,W)
ST2(V,I,I)
ST2(W,I,I)
ST2(I,I,I)
ST2(D,I,I)
ST2(F,I,I)
ST2(V,I,D)
ST2(W,I,D)
ST2(I,I,D)
ST2(D,I,D)
ST2(F,I,D)
ST2(V,I,F)
ST2(W,I,F)
ST2(I,I,F)
ST2(D,I,F)
ST2(F,I,F)
ST2(V,D,W)
ST2(W,D,W)
ST2(I,D,W)
ST2(D,D,W)
ST2(F,D,W)
ST2(V,D,I)
ST2(W,D,I)
ST2(I,D,I)
ST2(D,D,I)
ST2(F,D,I)
ST2(V,D,D)
ST2(W,D,D)
ST2(I,D,D)
ST2(D,D,D)
ST2(F,D,D)
ST2(V,D,F)
ST2(W,D,F)
ST2(I,D,F)
ST2(D,D,F)
ST2(F,D,F)
ST2(V,F,W)
ST2(W,F,W)
ST2(I,F,W)
ST2(D,F,W)
ST2(F,F,W)
ST2(V,F,I)
ST2(W,F,I)
ST2(I,F,I)
ST2(D,F,I)
ST2(F,F,I)
ST2(V,F,D)
ST2(W,F,D)
ST2(I,F,D)
ST2(D,F,D)
ST2(F,F,D)
ST2(V,F,F)
ST2(W,F,F)
ST2(I,F,F)
ST2(D,F,F)
ST2(F,F,F)
ST3(V,W,W,W)
ST3(W,W,W,I)
ST3(I,W,W,D)
ST3(D,W,W,F)
ST3(F,W,I,W)
ST3(W,W,I,I)
ST3(I,W,I,D)
ST3(D,W,I,F)
ST3(F,W,D,W)
ST3(V,W,D,I)
ST3(I,W,D,D)
ST3(D,W,D,F)
ST3(F,W,F,W)
ST3(V,W,F,I)
ST3(W,W,F,D)
ST3(D,W,F,F)
ST3(F,I,W,W)
ST3(V,I,W,I)
ST3(W,I,W,D)
ST3(I,I,W,F)
ST3(F,I,I,W)
ST3(V,I,I,I)
ST3(W,I,I,D)
ST3(I,I,I,F)
ST3(D,I,D,W)
ST3(W,I,D,I)
ST3(I,I,D,D)
ST3(D,I,D,F)
ST3(F,I,F,W)
ST3(V,I,F,I)
ST3(I,I,F,D)
ST3(D,I,F,F)
ST3(F,D,W,W)
ST3(V,D,W,I)
ST3(W,D,W,D)
ST3(D,D,W,F)
ST3(F,D,I,W)
ST3(V,D,I,I)
ST3(W,D,I,D)
ST3(I,D,I,F)
ST3(F,D,D,W)
ST3(V,D,D,I)
ST3(W,D,D,D)
ST3(I,D,D,F)
ST3(D,D,F,W)
ST3(V,D,F,I)
ST3(W,D,F,D)
ST3(I,D,F,F)
ST3(D,F,W,W)
ST3(F,F,W,I)
ST3(I,F,W,D)
ST3(D,F,W,F)
ST3(F,F,I,W)
ST3(V,F,I,I)
ST3(W,F,I,D)
ST3(D,F,I,F)
ST3(F,F,D,W)
ST3(V,F,D,I)
ST3(W,F,D,D)
ST3(I,F,D,F)
ST3(F,F,F,W)
ST3(V,F,F,I)
ST3(W,F,F,D)
ST3(I,F,F,F)
ST4(V,W,W,W,W)
ST4(W,W,W,W,I)
ST4(I,W,W,W,D)
ST4(D,W,W,W,F)
ST4(F,W,W,I,W)
ST4(W,W,W,I,I)
ST4(I,W,W,I,D)
ST4(D,W,W,I,F)
ST4(F,W,W,D,W)
ST4(V,W,W,D,I)
ST4(I,W,W,D,D)
ST4(D,W,W,D,F)
ST4(F,W,W,F,W)
ST4(V,W,W,F,I)
ST4(W,W,W,F,D)
ST4(D,W,W,F,F)
ST4(F,W,I,W,W)
ST4(V,W,I,W,I)
ST4(W,W,I,W,D)
ST4(I,W,I,W,F)
ST4(F,W,I,I,W)
ST4(V,W,I,I,I)
ST4(W,W,I,I,D)
ST4(I,W,I,I,F)
ST4(D,W,I,D,W)
ST4(W,W,I,D,I)
ST4(I,W,I,D,D)
ST4(D,W,I,D,F)
ST4(F,W,I,F,W)
ST4(V,W,I,F,I)
ST4(I,W,I,F,D)
ST4(D,W,I,F,F)
ST4(F,W,D,W,W)
ST4(V,W,D,W,I)
ST4(W,W,D,W,D)
ST4(D,W,D,W,F)
ST4(F,W,D,I,W)
ST4(V,W,D,I,I)
ST4(W,W,D,I,D)
ST4(I,W,D,I,F)
ST4(F,W,D,D,W)
ST4(V,W,D,D,I)
ST4(W,W,D,D,D)
ST4(I,W,D,D,F)
ST4(D,W,D,F,W)
ST4(V,W,D,F,I)
ST4(W,W,D,F,D)
ST4(I,W,D,F,F)
ST4(D,W,F,W,W)
ST4(F,W,F,W,I)
ST4(I,W,F,W,D)
ST4(D,W,F,W,F)
ST4(F,W,F,I,W)
ST4(V,W,F,I,I)
ST4(W,W,F,I,D)
ST4(D,W,F,I,F)
ST4(F,W,F,D,W)
ST4(V,W,F,D,I)
ST4(W,W,F,D,D)
ST4(I,W,F,D,F)
ST4(F,W,F,F,W)
ST4(V,W,F,F,I)
ST4(W,W,F,F,D)
ST4(I,W,F,F,F)
ST4(D,I,W,W,W)
ST4(V,I,W,W,I)
ST4(W,I,W,W,D)
ST4(I,I,W,W,F)
ST4(D,I,W,I,W)
ST4(F,I,W,I,I)
ST4(W,I,W,I,D)
ST4(I,I,W,I,F)
ST4(D,I,W,D,W)
ST4(F,I,W,D,I)
ST4(V,I,W,D,D)
ST4(D,I,W,D,F)
ST4(F,I,W,F,W)
ST4(V,I,W,F,I)
ST4(W,I,W,F,D)
ST4(I,I,W,F,F)
ST4(F,I,I,W,W)
ST4(V,I,I,W,I)
ST4(W,I,I,W,D)
ST4(I,I,I,W,F)
ST4(D,I,I,I,W)
ST4(V,I,I,I,I)
ST4(W,I,I,I,D)
ST4(I,I,I,I,F)
ST4(D,I,I,D,W)
ST4(F,I,I,D,I)
ST4(W,I,I,D,D)
ST4(I,I,I,D,F)
ST4(D,I,I,F,W)
ST4(F,I,I,F,I)
ST4(V,I,I,F,D)
ST4(I,I,I,F,F)
ST4(D,I,D,W,W)
ST4(F,I,D,W,I)
ST4(V,I,D,W,D)
ST4(W,I,D,W,F)
ST4(F,I,D,I,W)
ST4(V,I,D,I,I)
ST4(W,I,D,I,D)
ST4(I,I,D,I,F)
ST4(D,I,D,D,W)
ST4(V,I,D,D,I)
ST4(W,I,D,D,D)
ST4(I,I,D,D,F)
ST4(D,I,D,F,W)
ST4(F,I,D,F,I)
ST4(W,I,D,F,D)
ST4(I,I,D,F,F)
ST4(D,I,F,W,W)
ST4(F,I,F,W,I)
ST4(V,I,F,W,D)
ST4(I,I,F,W,F)
ST4(D,I,F,I,W)
ST4(F,I,F,I,I)
ST4(V,I,F,I,D)
ST4(W,I,F,I,F)
ST4(D,I,F,D,W)
ST4(F,I,F,D,I)
ST4(V,I,F,D,D)
ST4(W,I,F,D,F)
ST4(I,I,F,F,W)
ST4(V,I,F,F,I)
ST4(W,I,F,F,D)
ST4(I,I,F,F,F)
ST4(D,D,W,W,W)
ST4(F,D,W,W,I)
ST4(W,D,W,W,D)
ST4(I,D,W,W,F)
ST4(D,D,W,I,W)
ST4(F,D,W,I,I)
ST4(V,D,W,I,D)
ST4(I,D,W,I,F)
ST4(D,D,W,D,W)
ST4(F,D,W,D,I)
ST4(V,D,W,D,D)
ST4(W,D,W,D,F)
ST4(D,D,W,F,W)
ST4(F,D,W,F,I)
ST4(V,D,W,F,D)
ST4(W,D,W,F,F)
ST4(I,D,I,W,W)
ST4(F,D,I,W,I)
ST4(V,D,I,W,D)
ST4(W,D,I,W,F)
ST4(I,D,I,I,W)
ST4(D,D,I,I,I)
ST4(W,D,I,I,D)
ST4(I,D,I,I,F)
ST4(D,D,I,D,W)
ST4(F,D,I,D,I)
ST4(V,D,I,D,D)
ST4(I,D,I,D,F)
ST4(D,D,I,F,W)
ST4(F,D,I,F,I)
ST4(V,D,I,F,D)
ST4(W,D,I,F,F)
ST4(D,D,D,W,W)
ST4(F,D,D,W,I)
ST4(V,D,D,W,D)
ST4(W,D,D,W,F)
ST4(I,D,D,I,W)
ST4(F,D,D,I,I)
ST4(V,D,D,I,D)
ST4(W,D,D,I,F)
ST4(I,D,D,D,W)
ST4(D,D,D,D,I)
ST4(V,D,D,D,D)
ST4(W,D,D,D,F)
ST4(I,D,D,F,W)
ST4(D,D,D,F,I)
ST4(F,D,D,F,D)
ST4(I,D,D,F,F)
ST4(D,D,F,W,W)
ST4(F,D,F,W,I)
ST4(V,D,F,W,D)
ST4(W,D,F,W,F)
ST4(D,D,F,I,W)
ST4(F,D,F,I,I)
ST4(V,D,F,I,D)
ST4(W,D,F,I,F)
ST4(I,D,F,D,W)
ST4(F,D,F,D,I)
ST4(V,D,F,D,D)
ST4(W,D,F,D,F)
ST4(I,D,F,F,W)
ST4(D,D,F,F,I)
ST4(V,D,F,F,D)
ST4(W,D,F,F,F)
ST4(I,F,W,W,W)
ST4(D,F,W,W,I)
ST4(F,F,W,W,D)
ST4(W,F,W,W,F)
ST4(I,F,W,I,W)
ST4(D,F,W,I,I)
ST4(F,F,W,I,D)
ST4(V,F,W,I,F)
ST4(D,F,W,D,W)
ST4(F,F,W,D,I)
ST4(V,F,W,D,D)
ST4(W,F,W,D,F)
ST4(I,F,W,F,W)
ST4(F,F,W,F,I)
ST4(V,F,W,F,D)
ST4(W,F,W,F,F)
ST4(I,F,I,W,W)
ST4(D,F,I,W,I)
ST4(V,F,I,W,D)
ST4(W,F,I,W,F)
ST4(I,F,I,I,W)
ST4(D,F,I,I,I)
ST4(F,F,I,I,D)
ST4(W,F,I,I,F)
ST4(I,F,I,D,W)
ST4(D,F,I,D,I)
ST4(F,F,I,D,D)
ST4(V,F,I,D,F)
ST4(I,F,I,F,W)
ST4(D,F,I,F,I)
ST4(F,F,I,F,D)
ST4(V,F,I,F,F)
ST4(W,F,D,W,W)
ST4(F,F,D,W,I)
ST4(V,F,D,W,D)
ST4(W,F,D,W,F)
ST4(I,F,D,I,W)
ST4(D,F,D,I,I)
ST4(V,F,D,I,D)
ST4(W,F,D,I,F)
ST4(I,F,D,D,W)
ST4(D,F,D,D,I)
ST4(F,F,D,D,D)
ST4(W,F,D,D,F)
ST4(I,F,D,F,W)
ST4(D,F,D,F,I)
ST4(F,F,D,F,D)
ST4(V,F,D,F,F)
ST4(I,F,F,W,W)
ST4(D,F,F,W,I)
ST4(F,F,F,W,D)
ST4(V,F,F,W,F)
ST4(W,F,F,I,W)
ST4(D,F,F,I,I)
ST4(F,F,F,I,D)
ST4(V,F,F,I,F)
ST4(W,F,F,D,W)
ST4(I,F,F,D,I)
ST4(V,F,F,D,D)
ST4(W,F,F,D,F)
ST4(I,F,F,F,W)
ST4(D,F,F,F,I)
ST4(F,F,F,F,D)
ST4(W,F,F,F,F)
static const stub stubs[]={
{"V",(void*)ce_V,ca_V},
{"W",(void*)ce_W,ca_W},
{"I",(void*)ce_I,ca_I},
{"D",(void*)ce_D,ca_D},
{"F",(void*)ce_F,ca_F},
{"VW",(void*)ce_VW,ca_VW},
{"WW",(void*)ce_WW,ca_WW},
{"IW",(void*)ce_IW,ca_IW},
{"DW",(void*)ce_DW,ca_DW},
{"FW",(void*)ce_FW,ca_FW},
{"VI",(void*)ce_VI,ca_VI},
{"WI",(void*)ce_WI,ca_WI},
{"II",(void*)ce_II,ca_II},
{"DI",(void*)ce_DI,ca_DI},
{"FI",(void*)ce_FI,ca_FI},
{"VD",(void*)ce_VD,ca_VD},
{"WD",(void*)ce_WD,ca_WD},
{"ID",(void*)ce_ID,ca_ID},
{"DD",(void*)ce_DD,ca_DD},
{"FD",(void*)ce_FD,ca_FD},
{"VF",(void*)ce_VF,ca_VF},
{"WF",(void*)ce_WF,ca_WF},
{"IF",(void*)ce_IF,ca_IF},
{"DF",(void*)ce_DF,ca_DF},
{"FF",(void*)ce_FF,ca_FF},
{"VWW",(void*)ce_VWW,ca_VWW},
{"WWW",(void*)ce_WWW,ca_WWW},
{"IWW",(void*)ce_IWW,ca_IWW},
{"DWW",(void*)ce_DWW,ca_DWW},
{"FWW",(void*)ce_FWW,ca_FWW},
{"VWI",(void*)ce_VWI,ca_VWI},
{"WWI",(void*)ce_WWI,ca_WWI},
{"IWI",(void*)ce_IWI,ca_IWI},
{"DWI",(void*)ce_DWI,ca_DWI},
{"FWI",(void*)ce_FWI,ca_FWI},
{"VWD",(void*)ce_VWD,ca_VWD},
{"WWD",(void*)ce_WWD,ca_WWD},
{"IWD",(void*)ce_IWD,ca_IWD},
{"DWD",(void*)ce_DWD,ca_DWD},
{"FWD",(void*)ce_FWD,ca_FWD},
{"VWF",(void*)ce_VWF,ca_VWF},
{"WWF",(void*)ce_WWF,ca_WWF},
{"IWF",(void*)ce_IWF,ca_IWF},
{"DWF",(void*)ce_DWF,ca_DWF},
{"FWF",(void*)ce_FWF,ca_FWF},
{"VIW",(void*)ce_VIW,ca_VIW},
{"WIW",(void*)ce_WIW,ca_WIW},
{"IIW",(void*)ce_IIW,ca_IIW},
{"DIW",(void*)ce_DIW,ca_DIW},
{"FIW",(void*)ce_FIW,ca_FIW},
{"VII",(void*)ce_VII,ca_VII},
{"WII",(void*)ce_WII,ca_WII},
{"III",(void*)ce_III,ca_III},
{"DII",(void*)ce_DII,ca_DII},
{"FII",(void*)ce_FII,ca_FII},
{"VID",(void*)ce_VID,ca_VID},
{"WID",(void*)ce_WID,ca_WID},
{"IID",(void*)ce_IID,ca_IID},
{"DID",(void*)ce_DID,ca_DID},
{"FID",(void*)ce_FID,ca_FID},
{"VIF",(void*)ce_VIF,ca_VIF},
{"WIF",(void*)ce_WIF,ca_WIF},
{"IIF",(void*)ce_IIF,ca_IIF},
{"DIF",(void*)ce_DIF,ca_DIF},
{"FIF",(void*)ce_FIF,ca_FIF},
{"VDW",(void*)ce_VDW,ca_VDW},
{"WDW",(void*)ce_WDW,ca_WDW},
{"IDW",(void*)ce_IDW,ca_IDW},
{"DDW",(void*)ce_DDW,ca_DDW},
{"FDW",(void*)ce_FDW,ca_FDW},
{"VDI",(void*)ce_VDI,ca_VDI},
{"WDI",(void*)ce_WDI,ca_WDI},
{"IDI",(void*)ce_IDI,ca_IDI},
{"DDI",(void*)ce_DDI,ca_DDI},
{"FDI",(void*)ce_FDI,ca_FDI},
{"VDD",(void*)ce_VDD,ca_VDD},
{"WDD",(void*)ce_WDD,ca_WDD},
{"IDD",(void*)ce_IDD,ca_IDD},
{"DDD",(void*)ce_DDD,ca_DDD},
{"FDD",(void*)ce_FDD,ca_FDD},
{"VDF",(void*)ce_VDF,ca_VDF},
{"WDF",(void*)ce_WDF,ca_WDF},
{"IDF",(void*)ce_IDF,ca_IDF},
{"DDF",(void*)ce_DDF,ca_DDF},
{"FDF",(void*)ce_FDF,ca_FDF},
{"VFW",(void*)ce_VFW,ca_VFW},
{"WFW",(void*)ce_WFW,ca_WFW},
{"IFW",(void*)ce_IFW,ca_IFW},
{"DFW",(void*)ce_DFW,ca_DFW},
{"FFW",(void*)ce_FFW,ca_FFW},
{"VFI",(void*)ce_VFI,ca_VFI},
{"WFI",(void*)ce_WFI,ca_WFI},
{"IFI",(void*)ce_IFI,ca_IFI},
{"DFI",(void*)ce_DFI,ca_DFI},
{"FFI",(void*)ce_FFI,ca_FFI},
{"VFD",(void*)ce_VFD,ca_VFD},
{"WFD",(void*)ce_WFD,ca_WFD},
{"IFD",(void*)ce_IFD,ca_IFD},
{"DFD",(void*)ce_DFD,ca_DFD},
{"FFD",(void*)ce_FFD,ca_FFD},
{"VFF",(void*)ce_VFF,ca_VFF},
{"WFF",(void*)ce_WFF,ca_WFF},
{"IFF",(void*)ce_IFF,ca_IFF},
{"DFF",(void*)ce_DFF,ca_DFF},
{"FFF",(void*)ce_FFF,ca_FFF},
{"VWWW",(void*)ce_VWWW,ca_VWWW},
{"WWWI",(void*)ce_WWWI,ca_WWWI},
{"IWWD",(void*)ce_IWWD,ca_IWWD},
{"DWWF",(void*)ce_DWWF,ca_DWWF},
{"FWIW",(void*)ce_FWIW,ca_FWIW},
{"WWII",(void*)ce_WWII,ca_WWII},
{"IWID",(void*)ce_IWID,ca_IWID},
{"DWIF",(void*)ce_DWIF,ca_DWIF},
{"FWDW",(void*)ce_FWDW,ca_FWDW},
{"VWDI",(void*)ce_VWDI,ca_VWDI},
{"IWDD",(void*)ce_IWDD,ca_IWDD},
{"DWDF",(void*)ce_DWDF,ca_DWDF},
{"FWFW",(void*)ce_FWFW,ca_FWFW},
{"VWFI",(void*)ce_VWFI,ca_VWFI},
{"WWFD",(void*)ce_WWFD,ca_WWFD},
{"DWFF",(void*)ce_DWFF,ca_DWFF},
{"FIWW",(void*)ce_FIWW,ca_FIWW},
{"VIWI",(void*)ce_VIWI,ca_VIWI},
{"WIWD",(void*)ce_WIWD,ca_WIWD},
{"IIWF",(void*)ce_IIWF,ca_IIWF},
{"FIIW",(void*)ce_FIIW,ca_FIIW},
{"VIII",(void*)ce_VIII,ca_VIII},
{"WIID",(void*)ce_WIID,ca_WIID},
{"IIIF",(void*)ce_IIIF,ca_IIIF},
{"DIDW",(void*)ce_DIDW,ca_DIDW},
{"WIDI",(void*)ce_WIDI,ca_WIDI},
{"IIDD",(void*)ce_IIDD,ca_IIDD},
{"DIDF",(void*)ce_DIDF,ca_DIDF},
{"FIFW",(void*)ce_FIFW,ca_FIFW},
{"VIFI",(void*)ce_VIFI,ca_VIFI},
{"IIFD",(void*)ce_IIFD,ca_IIFD},
{"DIFF",(void*)ce_DIFF,ca_DIFF},
{"FDWW",(void*)ce_FDWW,ca_FDWW},
{"VDWI",(void*)ce_VDWI,ca_VDWI},
{"WDWD",(void*)ce_WDWD,ca_WDWD},
{"DDWF",(void*)ce_DDWF,ca_DDWF},
{"FDIW",(void*)ce_FDIW,ca_FDIW},
{"VDII",(void*)ce_VDII,ca_VDII},
{"WDID",(void*)ce_WDID,ca_WDID},
{"IDIF",(void*)ce_IDIF,ca_IDIF},
{"FDDW",(void*)ce_FDDW,ca_FDDW},
{"VDDI",(void*)ce_VDDI,ca_VDDI},
{"WDDD",(void*)ce_WDDD,ca_WDDD},
{"IDDF",(void*)ce_IDDF,ca_IDDF},
{"DDFW",(void*)ce_DDFW,ca_DDFW},
{"VDFI",(void*)ce_VDFI,ca_VDFI},
{"WDFD",(void*)ce_WDFD,ca_WDFD},
{"IDFF",(void*)ce_IDFF,ca_IDFF},
{"DFWW",(void*)ce_DFWW,ca_DFWW},
{"FFWI",(void*)ce_FFWI,ca_FFWI},
{"IFWD",(void*)ce_IFWD,ca_IFWD},
{"DFWF",(void*)ce_DFWF,ca_DFWF},
{"FFIW",(void*)ce_FFIW,ca_FFIW},
{"VFII",(void*)ce_VFII,ca_VFII},
{"WFID",(void*)ce_WFID,ca_WFID},
{"DFIF",(void*)ce_DFIF,ca_DFIF},
{"FFDW",(void*)ce_FFDW,ca_FFDW},
{"VFDI",(void*)ce_VFDI,ca_VFDI},
{"WFDD",(void*)ce_WFDD,ca_WFDD},
{"IFDF",(void*)ce_IFDF,ca_IFDF},
{"FFFW",(void*)ce_FFFW,ca_FFFW},
{"VFFI",(void*)ce_VFFI,ca_VFFI},
{"WFFD",(void*)ce_WFFD,ca_WFFD},
{"IFFF",(void*)ce_IFFF,ca_IFFF},
{"VWWWW",(void*)ce_VWWWW,ca_VWWWW},
{"WWWWI",(void*)ce_WWWWI,ca_WWWWI},
{"IWWWD",(void*)ce_IWWWD,ca_IWWWD},
{"DWWWF",(void*)ce_DWWWF,ca_DWWWF},
{"FWWIW",(void*)ce_FWWIW,ca_FWWIW},
{"WWWII",(void*)ce_WWWII,ca_WWWII},
{"IWWID",(void*)ce_IWWID,ca_IWWID},
{"DWWIF",(void*)ce_DWWIF,ca_DWWIF},
{"FWWDW",(void*)ce_FWWDW,ca_FWWDW},
{"VWWDI",(void*)ce_VWWDI,ca_VWWDI},
{"IWWDD",(void*)ce_IWWDD,ca_IWWDD},
{"DWWDF",(void*)ce_DWWDF,ca_DWWDF},
{"FWWFW",(void*)ce_FWWFW,ca_FWWFW},
{"VWWFI",(void*)ce_VWWFI,ca_VWWFI},
{"WWWFD",(void*)ce_WWWFD,ca_WWWFD},
{"DWWFF",(void*)ce_DWWFF,ca_DWWFF},
{"FWIWW",(void*)ce_FWIWW,ca_FWIWW},
{"VWIWI",(void*)ce_VWIWI,ca_VWIWI},
{"WWIWD",(void*)ce_WWIWD,ca_WWIWD},
{"IWIWF",(void*)ce_IWIWF,ca_IWIWF},
{"FWIIW",(void*)ce_FWIIW,ca_FWIIW},
{"VWIII",(void*)ce_VWIII,ca_VWIII},
{"WWIID",(void*)ce_WWIID,ca_WWIID},
{"IWIIF",(void*)ce_IWIIF,ca_IWIIF},
{"DWIDW",(void*)ce_DWIDW,ca_DWIDW},
{"WWIDI",(void*)ce_WWIDI,ca_WWIDI},
{"IWIDD",(void*)ce_IWIDD,ca_IWIDD},
{"DWIDF",(void*)ce_DWIDF,ca_DWIDF},
{"FWIFW",(void*)ce_FWIFW,ca_FWIFW},
{"VWIFI",(void*)ce_VWIFI,ca_VWIFI},
{"IWIFD",(void*)ce_IWIFD,ca_IWIFD},
{"DWIFF",(void*)ce_DWIFF,ca_DWIFF},
{"FWDWW",(void*)ce_FWDWW,ca_FWDWW},
{"VWDWI",(void*)ce_VWDWI,ca_VWDWI},
{"WWDWD",(void*)ce_WWDWD,ca_WWDWD},
{"DWDWF",(void*)ce_DWDWF,ca_DWDWF},
{"FWDIW",(void*)ce_FWDIW,ca_FWDIW},
{"VWDII",(void*)ce_VWDII,ca_VWDII},
{"WWDID",(void*)ce_WWDID,ca_WWDID},
{"IWDIF",(void*)ce_IWDIF,ca_IWDIF},
{"FWDDW",(void*)ce_FWDDW,ca_FWDDW},
{"VWDDI",(void*)ce_VWDDI,ca_VWDDI},
{"WWDDD",(void*)ce_WWDDD,ca_WWDDD},
{"IWDDF",(void*)ce_IWDDF,ca_IWDDF},
{"DWDFW",(void*)ce_DWDFW,ca_DWDFW},
{"VWDFI",(void*)ce_VWDFI,ca_VWDFI},
{"WWDFD",(void*)ce_WWDFD,ca_WWDFD},
{"IWDFF",(void*)ce_IWDFF,ca_IWDFF},
{"DWFWW",(void*)ce_DWFWW,ca_DWFWW},
{"FWFWI",(void*)ce_FWFWI,ca_FWFWI},
{"IWFWD",(void*)ce_IWFWD,ca_IWFWD},
{"DWFWF",(void*)ce_DWFWF,ca_DWFWF},
{"FWFIW",(void*)ce_FWFIW,ca_FWFIW},
{"VWFII",(void*)ce_VWFII,ca_VWFII},
{"WWFID",(void*)ce_WWFID,ca_WWFID},
{"DWFIF",(void*)ce_DWFIF,ca_DWFIF},
{"FWFDW",(void*)ce_FWFDW,ca_FWFDW},
{"VWFDI",(void*)ce_VWFDI,ca_VWFDI},
{"WWFDD",(void*)ce_WWFDD,ca_WWFDD},
{"IWFDF",(void*)ce_IWFDF,ca_IWFDF},
{"FWFFW",(void*)ce_FWFFW,ca_FWFFW},
{"VWFFI",(void*)ce_VWFFI,ca_VWFFI},
{"WWFFD",(void*)ce_WWFFD,ca_WWFFD},
{"IWFFF",(void*)ce_IWFFF,ca_IWFFF},
{"DIWWW",(void*)ce_DIWWW,ca_DIWWW},
{"VIWWI",(void*)ce_VIWWI,ca_VIWWI},
{"WIWWD",(void*)ce_WIWWD,ca_WIWWD},
{"IIWWF",(void*)ce_IIWWF,ca_IIWWF},
{"DIWIW",(void*)ce_DIWIW,ca_DIWIW},
{"FIWII",(void*)ce_FIWII,ca_FIWII},
{"WIWID",(void*)ce_WIWID,ca_WIWID},
{"IIWIF",(void*)ce_IIWIF,ca_IIWIF},
{"DIWDW",(void*)ce_DIWDW,ca_DIWDW},
{"FIWDI",(void*)ce_FIWDI,ca_FIWDI},
{"VIWDD",(void*)ce_VIWDD,ca_VIWDD},
{"DIWDF",(void*)ce_DIWDF,ca_DIWDF},
{"FIWFW",(void*)ce_FIWFW,ca_FIWFW},
{"VIWFI",(void*)ce_VIWFI,ca_VIWFI},
{"WIWFD",(void*)ce_WIWFD,ca_WIWFD},
{"IIWFF",(void*)ce_IIWFF,ca_IIWFF},
{"FIIWW",(void*)ce_FIIWW,ca_FIIWW},
{"VIIWI",(void*)ce_VIIWI,ca_VIIWI},
{"WIIWD",(void*)ce_WIIWD,ca_WIIWD},
{"IIIWF",(void*)ce_IIIWF,ca_IIIWF},
{"DIIIW",(void*)ce_DIIIW,ca_DIIIW},
{"VIIII",(void*)ce_VIIII,ca_VIIII},
{"WIIID",(void*)ce_WIIID,ca_WIIID},
{"IIIIF",(void*)ce_IIIIF,ca_IIIIF},
{"DIIDW",(void*)ce_DIIDW,ca_DIIDW},
{"FIIDI",(void*)ce_FIIDI,ca_FIIDI},
{"WIIDD",(void*)ce_WIIDD,ca_WIIDD},
{"IIIDF",(void*)ce_IIIDF,ca_IIIDF},
{"DIIFW",(void*)ce_DIIFW,ca_DIIFW},
{"FIIFI",(void*)ce_FIIFI,ca_FIIFI},
{"VIIFD",(void*)ce_VIIFD,ca_VIIFD},
{"IIIFF",(void*)ce_IIIFF,ca_IIIFF},
{"DIDWW",(void*)ce_DIDWW,ca_DIDWW},
{"FIDWI",(void*)ce_FIDWI,ca_FIDWI},
{"VIDWD",(void*)ce_VIDWD,ca_VIDWD},
{"WIDWF",(void*)ce_WIDWF,ca_WIDWF},
{"FIDIW",(void*)ce_FIDIW,ca_FIDIW},
{"VIDII",(void*)ce_VIDII,ca_VIDII},
{"WIDID",(void*)ce_WIDID,ca_WIDID},
{"IIDIF",(void*)ce_IIDIF,ca_IIDIF},
{"DIDDW",(void*)ce_DIDDW,ca_DIDDW},
{"VIDDI",(void*)ce_VIDDI,ca_VIDDI},
{"WIDDD",(void*)ce_WIDDD,ca_WIDDD},
{"IIDDF",(void*)ce_IIDDF,ca_IIDDF},
{"DIDFW",(void*)ce_DIDFW,ca_DIDFW},
{"FIDFI",(void*)ce_FIDFI,ca_FIDFI},
{"WIDFD",(void*)ce_WIDFD,ca_WIDFD},
{"IIDFF",(void*)ce_IIDFF,ca_IIDFF},
{"DIFWW",(void*)ce_DIFWW,ca_DIFWW},
{"FIFWI",(void*)ce_FIFWI,ca_FIFWI},
{"VIFWD",(void*)ce_VIFWD,ca_VIFWD},
{"IIFWF",(void*)ce_IIFWF,ca_IIFWF},
{"DIFIW",(void*)ce_DIFIW,ca_DIFIW},
{"FIFII",(void*)ce_FIFII,ca_FIFII},
{"VIFID",(void*)ce_VIFID,ca_VIFID},
{"WIFIF",(void*)ce_WIFIF,ca_WIFIF},
{"DIFDW",(void*)ce_DIFDW,ca_DIFDW},
{"FIFDI",(void*)ce_FIFDI,ca_FIFDI},
{"VIFDD",(void*)ce_VIFDD,ca_VIFDD},
{"WIFDF",(void*)ce_WIFDF,ca_WIFDF},
{"IIFFW",(void*)ce_IIFFW,ca_IIFFW},
{"VIFFI",(void*)ce_VIFFI,ca_VIFFI},
{"WIFFD",(void*)ce_WIFFD,ca_WIFFD},
{"IIFFF",(void*)ce_IIFFF,ca_IIFFF},
{"DDWWW",(void*)ce_DDWWW,ca_DDWWW},
{"FDWWI",(void*)ce_FDWWI,ca_FDWWI},
{"WDWWD",(void*)ce_WDWWD,ca_WDWWD},
{"IDWWF",(void*)ce_IDWWF,ca_IDWWF},
{"DDWIW",(void*)ce_DDWIW,ca_DDWIW},
{"FDWII",(void*)ce_FDWII,ca_FDWII},
{"VDWID",(void*)ce_VDWID,ca_VDWID},
{"IDWIF",(void*)ce_IDWIF,ca_IDWIF},
{"DDWDW",(void*)ce_DDWDW,ca_DDWDW},
{"FDWDI",(void*)ce_FDWDI,ca_FDWDI},
{"VDWDD",(void*)ce_VDWDD,ca_VDWDD},
{"WDWDF",(void*)ce_WDWDF,ca_WDWDF},
{"DDWFW",(void*)ce_DDWFW,ca_DDWFW},
{"FDWFI",(void*)ce_FDWFI,ca_FDWFI},
{"VDWFD",(void*)ce_VDWFD,ca_VDWFD},
{"WDWFF",(void*)ce_WDWFF,ca_WDWFF},
{"IDIWW",(void*)ce_IDIWW,ca_IDIWW},
{"FDIWI",(void*)ce_FDIWI,ca_FDIWI},
{"VDIWD",(void*)ce_VDIWD,ca_VDIWD},
{"WDIWF",(void*)ce_WDIWF,ca_WDIWF},
{"IDIIW",(void*)ce_IDIIW,ca_IDIIW},
{"DDIII",(void*)ce_DDIII,ca_DDIII},
{"WDIID",(void*)ce_WDIID,ca_WDIID},
{"IDIIF",(void*)ce_IDIIF,ca_IDIIF},
{"DDIDW",(void*)ce_DDIDW,ca_DDIDW},
{"FDIDI",(void*)ce_FDIDI,ca_FDIDI},
{"VDIDD",(void*)ce_VDIDD,ca_VDIDD},
{"IDIDF",(void*)ce_IDIDF,ca_IDIDF},
{"DDIFW",(void*)ce_DDIFW,ca_DDIFW},
{"FDIFI",(void*)ce_FDIFI,ca_FDIFI},
{"VDIFD",(void*)ce_VDIFD,ca_VDIFD},
{"WDIFF",(void*)ce_WDIFF,ca_WDIFF},
{"DDDWW",(void*)ce_DDDWW,ca_DDDWW},
{"FDDWI",(void*)ce_FDDWI,ca_FDDWI},
{"VDDWD",(void*)ce_VDDWD,ca_VDDWD},
{"WDDWF",(void*)ce_WDDWF,ca_WDDWF},
{"IDDIW",(void*)ce_IDDIW,ca_IDDIW},
{"FDDII",(void*)ce_FDDII,ca_FDDII},
{"VDDID",(void*)ce_VDDID,ca_VDDID},
{"WDDIF",(void*)ce_WDDIF,ca_WDDIF},
{"IDDDW",(void*)ce_IDDDW,ca_IDDDW},
{"DDDDI",(void*)ce_DDDDI,ca_DDDDI},
{"VDDDD",(void*)ce_VDDDD,ca_VDDDD},
{"WDDDF",(void*)ce_WDDDF,ca_WDDDF},
{"IDDFW",(void*)ce_IDDFW,ca_IDDFW},
{"DDDFI",(void*)ce_DDDFI,ca_DDDFI},
{"FDDFD",(void*)ce_FDDFD,ca_FDDFD},
{"IDDFF",(void*)ce_IDDFF,ca_IDDFF},
{"DDFWW",(void*)ce_DDFWW,ca_DDFWW},
{"FDFWI",(void*)ce_FDFWI,ca_FDFWI},
{"VDFWD",(void*)ce_VDFWD,ca_VDFWD},
{"WDFWF",(void*)ce_WDFWF,ca_WDFWF},
{"DDFIW",(void*)ce_DDFIW,ca_DDFIW},
{"FDFII",(void*)ce_FDFII,ca_FDFII},
{"VDFID",(void*)ce_VDFID,ca_VDFID},
{"WDFIF",(void*)ce_WDFIF,ca_WDFIF},
{"IDFDW",(void*)ce_IDFDW,ca_IDFDW},
{"FDFDI",(void*)ce_FDFDI,ca_FDFDI},
{"VDFDD",(void*)ce_VDFDD,ca_VDFDD},
{"WDFDF",(void*)ce_WDFDF,ca_WDFDF},
{"IDFFW",(void*)ce_IDFFW,ca_IDFFW},
{"DDFFI",(void*)ce_DDFFI,ca_DDFFI},
{"VDFFD",(void*)ce_VDFFD,ca_VDFFD},
{"WDFFF",(void*)ce_WDFFF,ca_WDFFF},
{"IFWWW",(void*)ce_IFWWW,ca_IFWWW},
{"DFWWI",(void*)ce_DFWWI,ca_DFWWI},
{"FFWWD",(void*)ce_FFWWD,ca_FFWWD},
{"WFWWF",(void*)ce_WFWWF,ca_WFWWF},
{"IFWIW",(void*)ce_IFWIW,ca_IFWIW},
{"DFWII",(void*)ce_DFWII,ca_DFWII},
{"FFWID",(void*)ce_FFWID,ca_FFWID},
{"VFWIF",(void*)ce_VFWIF,ca_VFWIF},
{"DFWDW",(void*)ce_DFWDW,ca_DFWDW},
{"FFWDI",(void*)ce_FFWDI,ca_FFWDI},
{"VFWDD",(void*)ce_VFWDD,ca_VFWDD},
{"WFWDF",(void*)ce_WFWDF,ca_WFWDF},
{"IFWFW",(void*)ce_IFWFW,ca_IFWFW},
{"FFWFI",(void*)ce_FFWFI,ca_FFWFI},
{"VFWFD",(void*)ce_VFWFD,ca_VFWFD},
{"WFWFF",(void*)ce_WFWFF,ca_WFWFF},
{"IFIWW",(void*)ce_IFIWW,ca_IFIWW},
{"DFIWI",(void*)ce_DFIWI,ca_DFIWI},
{"VFIWD",(void*)ce_VFIWD,ca_VFIWD},
{"WFIWF",(void*)ce_WFIWF,ca_WFIWF},
{"IFIIW",(void*)ce_IFIIW,ca_IFIIW},
{"DFIII",(void*)ce_DFIII,ca_DFIII},
{"FFIID",(void*)ce_FFIID,ca_FFIID},
{"WFIIF",(void*)ce_WFIIF,ca_WFIIF},
{"IFIDW",(void*)ce_IFIDW,ca_IFIDW},
{"DFIDI",(void*)ce_DFIDI,ca_DFIDI},
{"FFIDD",(void*)ce_FFIDD,ca_FFIDD},
{"VFIDF",(void*)ce_VFIDF,ca_VFIDF},
{"IFIFW",(void*)ce_IFIFW,ca_IFIFW},
{"DFIFI",(void*)ce_DFIFI,ca_DFIFI},
{"FFIFD",(void*)ce_FFIFD,ca_FFIFD},
{"VFIFF",(void*)ce_VFIFF,ca_VFIFF},
{"WFDWW",(void*)ce_WFDWW,ca_WFDWW},
{"FFDWI",(void*)ce_FFDWI,ca_FFDWI},
{"VFDWD",(void*)ce_VFDWD,ca_VFDWD},
{"WFDWF",(void*)ce_WFDWF,ca_WFDWF},
{"IFDIW",(void*)ce_IFDIW,ca_IFDIW},
{"DFDII",(void*)ce_DFDII,ca_DFDII},
{"VFDID",(void*)ce_VFDID,ca_VFDID},
{"WFDIF",(void*)ce_WFDIF,ca_WFDIF},
{"IFDDW",(void*)ce_IFDDW,ca_IFDDW},
{"DFDDI",(void*)ce_DFDDI,ca_DFDDI},
{"FFDDD",(void*)ce_FFDDD,ca_FFDDD},
{"WFDDF",(void*)ce_WFDDF,ca_WFDDF},
{"IFDFW",(void*)ce_IFDFW,ca_IFDFW},
{"DFDFI",(void*)ce_DFDFI,ca_DFDFI},
{"FFDFD",(void*)ce_FFDFD,ca_FFDFD},
{"VFDFF",(void*)ce_VFDFF,ca_VFDFF},
{"IFFWW",(void*)ce_IFFWW,ca_IFFWW},
{"DFFWI",(void*)ce_DFFWI,ca_DFFWI},
{"FFFWD",(void*)ce_FFFWD,ca_FFFWD},
{"VFFWF",(void*)ce_VFFWF,ca_VFFWF},
{"WFFIW",(void*)ce_WFFIW,ca_WFFIW},
{"DFFII",(void*)ce_DFFII,ca_DFFII},
{"FFFID",(void*)ce_FFFID,ca_FFFID},
{"VFFIF",(void*)ce_VFFIF,ca_VFFIF},
{"WFFDW",(void*)ce_WFFDW,ca_WFFDW},
{"IFFDI",(void*)ce_IFFDI,ca_IFFDI},
{"VFFDD",(void*)ce_VFFDD,ca_VFFDD},
{"WFFDF",(void*)ce_WFFDF,ca_WFFDF},
{"IFFFW",(void*)ce_IFFFW,ca_IFFFW},
{"DFFFI",(void*)ce_DFFFI,ca_DFFFI},
{"FFFFD",(void*)ce_FFFFD,ca_FFFFD},
{"WFFFF",(void*)ce_WFFFF,ca_WFFFF},
};
