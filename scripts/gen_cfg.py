#!/usr/bin/env python3
"""Writes props.json: which reference functions, tables, constants and structural analyses decide each property."""
import json, os
C={}
VG="interprocedural value-graph equivalence (global value numbering over SSA) with a specification model"
U=lambda *n:["(*uncompressedheader.UncompressedHeader)."+x for x in n]
T=lambda *n:["(*tilegroup.TileGroup)."+x for x in n]
tg=lambda *n:["tilegroup/"+x+".go" for x in n]
def c(i,files=(),fns=(),tables=(),**k):
    d=dict(files=list(files),fns=list(fns),tables=list(tables)); d.update(k); C[i]={a:b for a,b in d.items() if b}
c("P02",["bitstream/bitstream.go"])
c("P03",["parser/parser.go","obu/obu.go","header/header.go"],["bitstream.NewBitStream"])
c("P04",["sequenceheader/sequence_header.go"])
c("P05",[],["uncompressedheader.NewUncompressedHeader"]+U("build","markRefFrames","setupPastIndependence","loadPrevious","loadPreviousSegementIds","TemporalPointInfo","readInterpolationFilter","motionFieldEstimation","LoadLoopFilterParams")+["uncompressedheader.LoadSegmentationParams"])
c("P06",[],U("build","setFrameRefs","frameSizeWithRefs","frameSize","superResParams","computeImageSize","renderSize","GetRelativeDist")+["uncompressedheader.find*"])
c("P07",[],U("build","quantizationParams","readDeltaQ","segmentationParams","deltaQParams","deltaLfParams","GetQIndex","segFeatureActiveIdx")+T("segFeatureActive","segFeatureActiveIdx"))
c("P08",[],U("build","loopFilterParams","cdefParams","lrParams","readTxMode","setupPastIndependence"))
c("P09",[],U("build","frameReferenceMode","skipModeParams","globalMotionParams","readGlobalParam","decodeSignedSubexpWithRef","decodeSubexp","filmGrainParams","resetGrainParams","LoadGrainParams","decodeUnsignedSubexpWithRef"))
c("P10",["tileinfo/tile_info.go"],["tilegroup.NewTileGroup"]+T("build","decodeTile","clearAboveContext","clearLeftContext","clearBlockDecodedFlags","initSymbol","exitSymbol")+["(*cdef.Cdef).ClearCdef"])
c("P11",["symbol/symbol.go","literal/literal.go"],T("initSymbol","exitSymbol"))
c("P12",["uncompressedheader/cdf.go"],[],["uncompressedheader.*"],extra=["cdfshape"])
c("P13",["uncompressedheader/cdf.go"],T("initSymbol","exitSymbol","frameEndUpdateCdf","referenceFrameUpdate","referenceFrameLoadingProcess")+["tilegroup.tileCdf*"]+U("loadPrevious")+["symbol.ReadSymbol"],extra=["ownership:Cdf$"],
  technique=VG+"; interprocedural points-to and typestate analysis of who holds a probability table while it is adapted")
c("P14",tg("intra_frame_mode_info","decode_block"))
c("P15",tg("inter_frame_mode_info","inter_block_mode_info","syntax_element"),T("readCdef","readDeltaQIndex","readDeltaLf","readSkip","readSegmentId","modeInfo"))
c("P16",tg("decode_partition"),T("decodeTile","decodeBlock"))
c("P17",tg("tx_size"),T("computeTxType","isTxTypeInSet","transformType","intraTxTypeSymbol","getTxSet","decodeBlock","transformTree")+["tilegroup.getTxSize","tilegroup.findTxSize"])
c("P18",tg("palette","palette_tokens"),T("palettePrediction")+["util.Sort"])
c("P19",tg("coeffs"))
c("P20",tg("residual","reconstruct","transform","quantizer"))
c("P21",tg("predict_intra"),T("predictChromaFromLuma","palettePrediction"))
c("P22",tg("predict_inter","compute_prediction")+["wedgemask/wedge_mask.go"])
c("P23",tg("find_mv_stack","assign_mv"))
c("P24",tg("loop_filter_process"))
c("P25",tg("cdef")+["cdef/cdef.go"],T("readCdef"))
c("P26",tg("read_loop_restoration","loop_restoration"))
c("P32",[],T("decodeFrameWrapup","upscalingProcess"))
c("P27",tg("decode_frame_wrapup","output"),T("decodeFrameWrapup")+["tilegroup.NewExistingFrame"],extra=["ownership:!Cdf$"],
  technique=VG+"; interprocedural points-to and typestate analysis of shared state")
c("P28",[],["parser.NewParser"],extra=["globals","effects"],nosupport=True,
  technique="points-to based effect analysis: no store reaches package-level state after initialisation, no source of nondeterminism is called",
  level_note="Decided over every function of the module: stores are resolved by a flow-insensitive, field-based points-to analysis that over-approximates aliasing; calls into the standard library are classified by package. Logging is outside the property.")
c("P30",[],[],["shared.*","tilegroup.*","util.*","wedgemask.*"],consts=["shared","tilegroup","uncompressedheader","util","wedgemask","sequenceheader","state","header","obu"],nosupport=True,
  technique="entry-by-entry comparison of every constant and constant table with the specification's, plus a points-to based proof that no table is written",extra=["globals"],
  level_note="Exact: every constant and table entry of the type-checked program is compared with the transcription of the specification in /verif/model, and no store may reach a table.")
c("P01",[],[],extra=["layers"],nosupport=True,
  technique="package loading and type-checking of the whole module, import-graph layering and reachability analysis",
  level_note="Exact for the import graph of the source tree: every package is loaded and type-checked, and every import edge is checked against the layer order.")
c("P29",["util/util.go"])
X={
"P03":["(*obu.Obu).*","(*parser.Parser).*","tilegroup.NewExistingFrame"],
"P05":["uncompressedheader.*"]+U("*")+["tileinfo.NewTileInfo"]+T("referenceFrameLoadingProcess"),
"P06":T("referenceFrameUpdate","referenceFrameLoadingProcess"),
"P07":T("getDcQuant","getAcQuant","readDeltaQIndex","readDeltaLf","readSegmentId","getSegmentId","intraSegmentId","interSegmentId")+["tilegroup.dcQ","tilegroup.acQ","tilegroup.saveSegmentationParams","uncompressedheader.LoadSegmentationParams"]+U("setupPastIndependence","loadPrevious","loadPreviousSegementIds"),
"P08":["tilegroup.saveLoopFilterParams"]+U("LoadLoopFilterParams","loadPrevious"),
"P09":["tilegroup.saveGrainParams"]+U("setupPastIndependence","loadPrevious","GetRelativeDist"),
"P10":["(*obu.Obu).*","tilegroup.NewExistingFrame"]+U("tileInfo","build"),
"P12":U("build","setupPastIndependence"),
"P13":U("build","setupPastIndependence")+T("build","decodeFrameWrapup","decodeTile"),
"P14":T("getSegmentId","isDirectionalMode","isInside","assignMv","paletteModeInfo","readTxSize","readBlockTxSize","segFeatureActive","segFeatureActiveIdx"),
"P15":T("decodeBlock","resetBlockContext","isScaled","isInside","segFeatureActive","segFeatureActiveIdx","intraAngleInfoY","intraAngleInfoUv","readCflAlphas","isDirectionalMode","filterIntraModeInfo","paletteModeInfo","assignMv","readBlockTxSize"),
"P16":T("clearBlockDecodedFlags","isInside"),
"P17":T("transformBlock","resetBlockContext","getPlaneResidualSize","coeffs","residual","isDirectionalMode")+["tilegroup.getPlaneResidualSize"],
"P18":T("decodeBlock","resetBlockContext","predictIntra","transformBlock"),
"P19":T("transformBlock","resetBlockContext","clearAboveContext","clearLeftContext","residual"),
"P20":U("GetQIndex")+T("getScan","coeffs","segFeatureActive","segFeatureActiveIdx","computeTxType")+["tilegroup.getTxClass"],
"P21":T("clearBlockDecodedFlags","transformBlock","decodeBlock","isDirectionalMode","readCflAlphas"),
"P22":T("isScaled","findWarpSamples","addSample","hasOverlappableCandidates","decodeBlock"),
"P23":T("motionVectorStorageProcess","isInside","hasNearmv","decodeBlock","setupGlobalMv*")+U("motionFieldEstimation","GetRelativeDist"),
"P24":T("decodeFrameWrapup","readDeltaLf","segFeatureActive","segFeatureActiveIdx")+["tilegroup.isInsideFilterRegion"],
"P25":T("decodeFrameWrapup")+["tilegroup.isInsideFilterRegion"]+U("cdefParams"),
"P26":T("decodeFrameWrapup","decodeTile")+["tilegroup.isInsideFilterRegion"]+U("lrParams"),
"P27":T("build","referenceFrameLoadingProcess","referenceFrameUpdate")+["(*obu.Obu).build","(*obu.Obu).newFrame","uncompressedheader.LoadCdfs","uncompressedheader.SaveCdfs","uncompressedheader.LoadSegmentationParams"]+U("LoadLoopFilterParams","LoadGrainParams","loadPrevious","loadPreviousSegementIds","build","computeImageSize","markRefFrames"),
}
for k,v in X.items():
    f=C[k].setdefault("fns",[])
    f+=[x for x in v if x not in f]
json.dump(C,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","props.json"),"w"),indent=1)
