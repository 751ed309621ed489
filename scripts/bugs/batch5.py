exec(open('/verif/scripts/bugs/common.py').read())
bug('b-upscale-edge','P32',[('tilegroup/decode_frame_wrapup.go','		maxX := miW*MI_SIZE - 1\n','		maxX := util.Min(miW*MI_SIZE, downscaledPlaneW) - 1\n')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.NumPlanes = 1
 sh.ColorConfig.BitDepth = 8
 uh := uncompressedheader.UncompressedHeader{UseSuperRes: true, FrameWidth: 5, UpscaledWidth: 9, FrameHeight: 1}
 s.MiCols = 2
 s.MiRows = 2
 var in [3][16][16]int
 for x := 0; x < 8; x++ { in[0][0][x] = (x * 37) % 256 }
 out := tg.upscalingProcess(in, s, sh, uh)
 uh.FrameWidth = 5
 in2 := in
 in2[0][0][5] = 0
 out2 := tg.upscalingProcess(in2, s, sh, uh)
 if out == out2 { t.Fatal("the samples decoded beyond the frame edge do not take part in the filter", out[0][0]) }
}''','superres with a coded width that is not a multiple of 8','the last columns of an upscaled row are filtered from replicated samples instead of the decoded ones')
bug('b-wrapup-currframe','P32',[('tilegroup/tile_group.go','		t.cdefProcess(state, sh, uh)\n','		state.UpscaledCurrFrame = t.upscalingProcess(state.CurrFrame, state, sh, uh)\n		t.cdefProcess(state, sh, uh)\n'),('tilegroup/tile_group.go','		state.UpscaledCurrFrame = t.upscalingProcess(state.CurrFrame, state, sh, uh)\n		t.loopRestoration(state, uh, sh)','		t.loopRestoration(state, uh, sh)')] if 0 else [('tilegroup/tile_group.go','		state.UpscaledCurrFrame = t.upscalingProcess(state.CurrFrame, state, sh, uh)\n','		state.UpscaledCurrFrame = t.upscalingProcess(state.CdefFrame, state, sh, uh)\n')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.NumPlanes = 1
 sh.ColorConfig.BitDepth = 8
 sh.EnableCdef = true
 uh := uncompressedheader.UncompressedHeader{FrameWidth: 8, UpscaledWidth: 8, FrameHeight: 8, ShowFrame: false}
 uh.CdefYPriStrength = []int{4}
 uh.CdefYSecStrength = []int{4}
 uh.CdefUVPriStrength = []int{0}
 uh.CdefUVSecStrength = []int{0}
 uh.CdefDampening = 5
 s.MiCols = 2
 s.MiRows = 2
 prep(tg, s)
 for y := 0; y < 8; y++ { for x := 0; x < 8; x++ { s.CurrFrame[0][y][x] = 100 + ((x*x+y)%3)*6 } }
 tg.decodeFrameWrapup(s, uh, sh)
 same := true
 for y := 0; y < 8; y++ { for x := 0; x < 8; x++ {
  if s.CdefFrame[0][y][x] != s.CurrFrame[0][y][x] { same = false }
  if s.UpscaledCurrFrame[0][y][x] != s.CurrFrame[0][y][x] { t.Fatal("the deblocked frame was lost", y, x) }
 } }
 if same { t.Fatal("cdef did nothing") }
}
func prep(tg *TileGroup, s *state.State) {
 s.Cdef.CdefIdx = [][]int{{0, 0}, {0, 0}}
}
''','loop restoration units whose stripe boundary rows come from the deblocked frame after cdef changed samples there','the rows above and below a stripe are taken after CDEF instead of before it')
