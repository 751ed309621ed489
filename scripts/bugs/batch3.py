exec(open('/verif/scripts/bugs/common.py').read())
SYM='''
func symState() (*state.State, bitstream.BitStream) {
 return &state.State{SymbolRange: 32768, SymbolValue: 20000, SymbolMaxBits: 100}, bitstream.NewBitStream(make([]byte, 64))
}
func tables(n int) [][]int {
 r := make([][]int, n)
 for i := range r { r[i] = []int{16384, 32768, 0} }
 return r
}
func used(c [][]int) int {
 for i := range c { if c[i][len(c[i])-1] != 0 { return i } }
 return -1
}
'''
bug('b-coefbase-eob','P19',[('tilegroup/coeffs.go','if c <= (height<<bwl)/8 {','if c < (height<<bwl)/8 {')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 for _, c := range [][2]int{{0, SIG_COEF_CONTEXTS-4}, {1, SIG_COEF_CONTEXTS-3}, {2, SIG_COEF_CONTEXTS-3}, {3, SIG_COEF_CONTEXTS-2}, {4, SIG_COEF_CONTEXTS-2}, {5, SIG_COEF_CONTEXTS-1}} {
  if v := tg.getCoeffBaseCtx(TX_4X4, 0, 0, 0, c[0], c[0], true, s, uncompressedheader.UncompressedHeader{}, sequenceheader.SequenceHeader{}); v != c[1] { t.Fatal(c, v) }
 }
}''','a block whose last coefficient sits exactly at an eighth of the block','the last coefficient is decoded with the wrong context')

bug('b-txwidth-skip','P17',[('tilegroup/tx_size.go','util.Bool(t.Skips[row-1][col]) && util.Bool(t.IsInters[row-1][col])','util.Bool(t.Skips[row-1][col])')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{MiRow: 1, AvailU: true}
 tg.Skips[0][0] = 1
 s.MiSizes[0][0] = shared.BLOCK_64X64
 tg.InterTxSizes[0][0] = TX_8X8
 if v := tg.getAboveTxWidth(1, 0, s); v != 8 { t.Fatal(v) }
 tg.IsInters[0][0] = 1
 if v := tg.getAboveTxWidth(1, 0, s); v != 64 { t.Fatal(v) }
}''','an intra block with skip above a block with a coded transform size','the block width is used instead of the transform width of a skipped intra block')

bug('b-itx-flip','P20',[('tilegroup/transform.go','''			t.PlaneTxType == DCT_FLIPADST ||
			t.PlaneTxType == FLIPADST_FLIPADST ||
			t.PlaneTxType == ADST_FLIPADST ||
			t.PlaneTxType == FLIPADST_ADST ||
			t.PlaneTxType == H_ADST ||''','''			t.PlaneTxType == DCT_FLIPADST ||
			t.PlaneTxType == ADST_FLIPADST ||
			t.PlaneTxType == FLIPADST_ADST ||
			t.PlaneTxType == H_ADST ||''')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.BitDepth = 8
 var r [2][4][4]int
 for k, ty := range []int{ADST_ADST, FLIPADST_FLIPADST} {
  tg := &TileGroup{PlaneTxType: ty}
  tg.Dequant[0][0] = 500
  tg.Dequant[1][2] = -300
  tg.InverseTranform(TX_4X4, sh)
  for i := 0; i < 4; i++ { for j := 0; j < 4; j++ { r[k][i][j] = tg.Residual[i][j] } }
 }
 if r[0] != r[1] { t.Fatal(r) }
}''','a block coded with the FLIPADST_FLIPADST type','its rows are transformed with the identity')

bug('b-itx-clamp','P20',[('tilegroup/transform.go','colClampRange := util.Max(sh.ColorConfig.BitDepth+6, 16)','colClampRange := util.Max(sh.ColorConfig.BitDepth+8, 16)')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.BitDepth = 12
 tg := &TileGroup{PlaneTxType: IDTX}
 tg.Dequant[0][0] = 1<<19 - 1
 tg.InverseTranform(TX_16X16, sh)
 // the row result is clamped to 18 bits, then scaled by 2*sqrt(2) and divided by 16
 if tg.Residual[0][0] != DEMO { t.Fatal(tg.Residual[0][0]) }
}'''.replace('DEMO','23172'),'high bit depth with coefficients that overflow the intermediate range','column inputs are clamped to too wide a range at high bit depth')

bug('b-smooth-h-edge','P21',[('tilegroup/predict_intra.go','smoothPred := smWeights[j]*t.LeftCol[i] + (256-smWeights[j])*t.AboveRow[w-1]','smoothPred := smWeights[j]*t.LeftCol[i] + (256-smWeights[j])*t.AboveRow[h-1]')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 for i := 0; i < 8; i++ { tg.AboveRow[i] = 10*i; tg.LeftCol[i] = 100 }
 p := tg.smoothIntraPredictionProcess(SMOOTH_H_PRED, 3, 2, 8, 4)
 w := Sm_Weights_Tx_8x8[7]
 if p[0][7] != (w*100+(256-w)*70+128)>>8 { t.Fatal(p[0][7]) }
}''','a rectangular block with SMOOTH_H prediction','the interpolation runs towards the wrong sample of the row above')

bug('b-lr-stripe-above','P26',[('tilegroup/loop_restoration.go','y = util.Max(t.StripeStartY-2, y)','y = util.Max(t.StripeStartY-3, y)')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{PlaneEndX: 8, PlaneEndY: 8, StripeStartY: 4, StripeEndY: 6}
 s := &state.State{}
 for i := 0; i < 9; i++ { s.UpscaledCurrFrame[0][i][0] = i; s.UpscaledCdefFrame[0][i][0] = 100+i }
 for y, w := range []int{2, 2, 2, 3, 104, 105, 106, 7, 8} {
  if v := tg.getSourceSample(0, 0, y, s); v != w { t.Fatal(y, v, w) }
 }
}''','a filter reaching three rows above a stripe','rows above the stripe that are not kept are used')

bug('b-partition-leftctx','P16',[('tilegroup/decode_partition.go','''	left := state.AvailL && (shared.MI_HEIGHT_LOG2[state.MiSizes[r][c-1]] < bsl)
	ctx := util.Int(left)*2 + util.Int(above)

	var partitionCdf []int
	if bsl == 1 {
		partitionCdf = state.TilePartitionW8Cdf[ctx]
	} else if bsl == 2 {
		partitionCdf = state.TilePartitionW16Cdf[ctx]
	} else if bsl == 3 {
		partitionCdf = state.TilePartitionW32Cdf[ctx]
	} else if bsl == 4 {
		partitionCdf = state.TilePartitionW64Cdf[ctx]
	} else {
		partitionCdf = state.TilePartitionW128Cdf[ctx]
	}

	psum := (partitionCdf[PARTITION_VERT] - partitionCdf[PARTITION_VERT-1] +''','''	left := state.AvailL && (shared.MI_WIDTH_LOG2[state.MiSizes[r][c-1]] < bsl)
	ctx := util.Int(left)*2 + util.Int(above)

	var partitionCdf []int
	if bsl == 1 {
		partitionCdf = state.TilePartitionW8Cdf[ctx]
	} else if bsl == 2 {
		partitionCdf = state.TilePartitionW16Cdf[ctx]
	} else if bsl == 3 {
		partitionCdf = state.TilePartitionW32Cdf[ctx]
	} else if bsl == 4 {
		partitionCdf = state.TilePartitionW64Cdf[ctx]
	} else {
		partitionCdf = state.TilePartitionW128Cdf[ctx]
	}

	psum := (partitionCdf[PARTITION_VERT] - partitionCdf[PARTITION_VERT-1] +''')],'tilegroup',TG+SYM+'''
func TestDemo(t *testing.T) {
 s, b := symState()
 s.AvailL = true
 s.MiSizes[0][0] = shared.BLOCK_8X16
 // context 0: nearly always horizontal; context 2: nearly always split
 s.TilePartitionW16Cdf = [][]int{
  {32000, 32010, 32020, 32030, 32040, 32050, 32060, 32070, 32080, 32768, 0}, nil,
  {10, 20, 30, 32000, 32040, 32050, 32060, 32070, 32080, 32768, 0}, nil}
 s.TilePartitionW16Cdf[0][9], s.TilePartitionW16Cdf[0][8] = 32768, 32700
 if v := splitOrHorzElement(shared.BLOCK_16X16, 0, 1, s, uncompressedheader.UncompressedHeader{}, &b); v != 0 { t.Fatal(v) }
}''','a block crossing the bottom edge of the frame beside a rectangular left neighbour','the split flag is decoded with the context of the wrong neighbour dimension')

bug('b-segid-ctx','P14',[('tilegroup/intra_frame_mode_info.go','prevUL == prevU || prevUL == prevL || prevU == prevL','prevUL == prevU || prevUL == prevL')],'tilegroup',TG+SYM+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s, b := symState()
 s.MiRow, s.MiCol, s.AvailU, s.AvailL = 1, 1, true, true
 tg.SegmentIds[0][1], tg.SegmentIds[1][0] = 1, 1
 s.TileSegmentIdCdf = tables(3)
 tg.readSegmentId(&b, uncompressedheader.UncompressedHeader{LastActiveSegId: 7}, s)
 if used(s.TileSegmentIdCdf) != 1 { t.Fatal(used(s.TileSegmentIdCdf)) }
}''','above and left neighbours in the same segment and the corner in another','the segment id is decoded with context 0 instead of 1')

bug('b-isinter-ctx','P15',[('tilegroup/inter_frame_mode_info.go','''				ctx = 2 * util.Int(t.AboveIntra)
			} else {
				ctx = 2 * util.Int(t.LeftIntra)
''','''				ctx = 2 * util.Int(t.AboveIntra)
			} else {
				ctx = util.Int(t.LeftIntra)
''')],'tilegroup',TG+SYM+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{LeftIntra: true}
 s, b := symState()
 s.AvailL = true
 s.TileIsInterCdf = tables(4)
 tg.readIsInter(&b, s, uncompressedheader.UncompressedHeader{})
 if used(s.TileIsInterCdf) != 2 { t.Fatal(used(s.TileIsInterCdf)) }
}''','a block at the top of a tile with an intra block on its left','is_inter is decoded with the wrong context')

bug('b-mvstack-swap','P23',[('tilegroup/find_mv_stack.go','	for list := 0; list < 1+util.Int(isCompound); list++ {\n		for comp := 0; comp < 2; comp++ {\n			temp = ','	for list := 0; list < 1; list++ {\n		for comp := 0; comp < 2; comp++ {\n			temp = ')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 tg.RefStackMv[0] = [2][2]int{{1, 2}, {3, 4}}
 tg.RefStackMv[1] = [2][2]int{{5, 6}, {7, 8}}
 tg.WeightStack[0], tg.WeightStack[1] = 10, 20
 tg.swapStack(0, 1, true)
 if tg.RefStackMv[0] != [2][2]int{{5, 6}, {7, 8}} || tg.RefStackMv[1] != [2][2]int{{1, 2}, {3, 4}} { t.Fatal(tg.RefStackMv[:2]) }
}''','a compound block whose candidates are reordered by weight','the second vectors stay with the wrong candidates')

bug('b-inter-round12','P22',[('tilegroup/predict_inter.go','if sh.ColorConfig.BitDepth == 12 && !isCompound {','if sh.ColorConfig.BitDepth == 12 {')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.BitDepth = 12
 tg.roundVariablesDerivationProcess(true, sh)
 if tg.InterRound0 != 5 || tg.InterRound1 != 7 { t.Fatal(tg.InterRound0, tg.InterRound1) }
 tg.roundVariablesDerivationProcess(false, sh)
 if tg.InterRound0 != 5 || tg.InterRound1 != 9 { t.Fatal(tg.InterRound0, tg.InterRound1) }
}''','12-bit compound prediction','12-bit compound predictions are rounded two bits short')

bug('b-scratch-global','P28',[('tilegroup/loop_restoration.go','''	var filter [7]int
	filter[3] = 128
	for i := 0; i < 3; i++ {''','''	filter := &wienerFilterTaps
	for i := 0; i < 3; i++ {'''),('tilegroup/loop_restoration.go','''		filter[3] -= 2 * c
	}

	return filter
''','''		filter[3] -= 2 * c
	}

	return *filter
'''),('tilegroup/loop_restoration.go','func (t *TileGroup) wienerCoefficient(','// scratch space for the taps\nvar wienerFilterTaps = [7]int{3: 128}\n\nfunc (t *TileGroup) wienerCoefficient(')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 a := tg.wienerCoefficient([3]int{1, 2, 3})
 b := tg.wienerCoefficient([3]int{1, 2, 3})
 if a != b || a[3] != 128-12 { t.Fatal(a, b) }
}''','a second restoration unit, a second frame or a second decoder in the same process','the centre tap depends on what was filtered before')
