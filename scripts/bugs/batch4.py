exec(open('/verif/scripts/bugs/common.py').read())
UHH=UH.replace('"github.com/m4tthewde/gov1/internal/sequenceheader"','"github.com/m4tthewde/gov1/internal/sequenceheader"\n"github.com/m4tthewde/gov1/internal/header"')+"var _ header.Header\n"
bug('b-cdf-alias-default','P13',[('tilegroup/tile_group.go','	state.SkipCdf = state.SavedSkipCdf','	copy(state.SkipCdf, state.SavedSkipCdf)')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 s.SkipCdf = uncompressedheader.DEFAULT_SKIP_CDF
 s.SavedSkipCdf = [][]int{{1, 32768, 0}, {2, 32768, 0}, {3, 32768, 0}}
 tg.frameEndUpdateCdf(s)
 if s.SkipCdf[0][0] != 1 || uncompressedheader.DEFAULT_SKIP_CDF[0][0] != 31671 { t.Fatal("the default table was overwritten") }
}''','a key frame with frame-end adaptation followed by another frame that starts from the defaults','the adapted table is written over the default table of the package')

bug('b-cdf-alias-ref','P13',[('tilegroup/tile_group.go','	state.ZeroMvCdf = state.SavedZeroMvCdf','	for i := range state.SavedZeroMvCdf {\n		copy(state.ZeroMvCdf[i], state.SavedZeroMvCdf[i])\n	}')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 s.ZeroMvCdf = [][]int{{5, 32768, 0}}
 uncompressedheader.SaveCdfs(3, s)
 s.SavedZeroMvCdf = [][]int{{9, 32768, 1}}
 tg.frameEndUpdateCdf(s)
 if s.ZeroMvCdf[0][0] != 9 { t.Fatal(s.ZeroMvCdf) }
 uncompressedheader.LoadCdfs(3, s)
 if s.ZeroMvCdf[0][0] != 5 { t.Fatal("the saved context of a reference slot changed", s.ZeroMvCdf) }
}''','a reference slot that keeps its context while later frames adapt theirs','the context stored with a reference frame changes when a later frame ends')

bug('b-coeffcdf-qidx','P12',[('uncompressedheader/cdf.go','	} else if uh.BaseQIdx <= 60 {','	} else if uh.BaseQIdx < 60 {')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 s := &state.State{}
 for _, c := range [][2]int{{0, 0}, {20, 0}, {21, 1}, {60, 1}, {61, 2}, {120, 2}, {121, 3}, {255, 3}} {
  initCoeffCdfs(s, UncompressedHeader{BaseQIdx: c[0]})
  if &s.TxbSkipCdf[0][0][0] != &DEFAULT_TXB_SKIP_CDF[c[1]][0][0][0] { t.Fatal(c) }
 }
}''','a base quantizer index of exactly 60','the coefficient tables of the next quantizer range are loaded')

bug('b-cdf-drl','P12',[('uncompressedheader/cdf.go','		24560, 32768, 0},','		25460, 32768, 0},')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 s := &state.State{}
 initNonCoeffCdfs(s)
 for i, w := range []int{13104, 24560, 18945} { if s.DrlModeCdf[i][0] != w { t.Fatal(i, s.DrlModeCdf[i]) } }
}''','drl_mode read with context 1','one probability of the drl_mode table has two digits swapped')

bug('b-hdr-bufremoval','P05',[('uncompressedheader/uncompressed_header.go','if opPtIdc == 0 || (inTemporalLayer && inSpatialLayer) {','if inTemporalLayer && inSpatialLayer {')],'uncompressedheader',UHH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{DecoderModelInfoPresent: true, ReducedStillPictureHeader: true, MaxFrameWidthMinusOne: 15, MaxFrameHeightMinusOne: 15}
 sh.ColorConfig.NumPlanes = 3
 sh.DecoderModelPresentForThisOp = []bool{true}
 sh.OperatingPointIdc = []int{0}
 sh.DecoderModelInfo.BufferRemovalTimeLengthMinusOne = 7
 // disable_cdf_update=0, buffer_removal_time_present=1, eight bits of time, render=0, uniform=1, base_q_idx=0x55
 b := bitstream.NewBitStream([]byte{0x40, 0x15, 0x55, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0})
 u.build(header.Header{}, sh, s, &b)
 if u.BaseQIdx != 0x55 { t.Fatal(u.BaseQIdx) }
}''','a stream with decoder model information and an operating point without layers','the buffer removal time is not skipped and the rest of the header is misread')

bug('b-skipmode-second','P09',[('uncompressedheader/uncompressed_header.go','if secondForwardIdx < 0 || u.GetRelativeDist(refHint, secondForwardHint, sh) > 0 {','if secondForwardIdx < 0 || u.GetRelativeDist(refHint, secondForwardHint, sh) >= 0 {')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{ReferenceSelect: true, OrderHint: 20}
 s := &state.State{}
 for i := 0; i < 7; i++ { u.RefFrameIdx[i] = i }
 s.RefOrderHint = [8]int{19, 17, 17, 15, 14, 13, 12, 11}
 b := bitstream.NewBitStream([]byte{0xff})
 u.skipModeParams(s, &b, sequenceheader.SequenceHeader{EnableOrderHint: true, OrderHintBits: 7})
 if u.SkipModeFrame != [2]int{1, 2} || u.SkipModePresent != 1 { t.Fatal(u.SkipModeFrame) }
}''','only forward references, two of which share the second nearest order hint','skip mode uses the later of two equally distant references')

bug('b-lf-chroma-level','P08',[('uncompressedheader/uncompressed_header.go','if util.Bool(u.LoopFilterLevel[0]) || util.Bool(u.LoopFilterLevel[1]) {','if util.Bool(u.LoopFilterLevel[0]) {')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{}
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.NumPlanes = 3
 // level0=0 level1=1 level2=2 level3=3 sharpness=0 delta_enabled=0
 b := bitstream.NewBitStream([]byte{0x00, 0x10, 0x83, 0, 0})
 u.loopFilterParams(&b, sh)
 if u.LoopFilterLevel != [4]int{0, 1, 2, 3} || b.Position != 28 { t.Fatal(u.LoopFilterLevel, b.Position) }
}''','a luma filter level that is zero for vertical edges only','the chroma levels are not read')

bug('b-divlut','P30',[('tilegroup/predict_inter.go','16384, 16320, 16257, 16194, 16132, 16070, 16009,','16384, 16320, 16257, 16194, 16132, 16070, 16008,')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 for i, v := range Div_Lut { if w := ((1<<22) + (256+i)/2) / (256+i); v != w { t.Fatal(i, v, w) } }
}''','a warp whose divisor falls on entry 6 of the reciprocal table','one reciprocal is off by one')

bug('b-wedge-code','P30',[('wedgemask/wedge_mask.go','{WEDGE_OBLIQUE117, 2, 4}, {WEDGE_OBLIQUE117, 6, 4},\n	},\n}','{WEDGE_OBLIQUE117, 2, 4}, {WEDGE_OBLIQUE117, 4, 6},\n	},\n}')],'wedgemask','''
import "testing"
func TestDemo(t *testing.T) {
 for s := 0; s < 3; s++ {
  w := Wedge_Codebook[s][15]
  if w[0] != WEDGE_OBLIQUE117 || w[1] != 6 || w[2] != 4 { t.Fatal(s, w) }
 }
}''','the last wedge of one block shape','its boundary is placed at the wrong offset')
