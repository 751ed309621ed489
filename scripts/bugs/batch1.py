import sys; sys.path.insert(0,'/verif/scripts')
from bug import bug
U='uncompressedheader/uncompressed_header.go'
IM='''
import ("testing"
"github.com/m4tthewde/gov1/internal/state"
"github.com/m4tthewde/gov1/internal/bitstream"
"github.com/m4tthewde/gov1/internal/shared"
"github.com/m4tthewde/gov1/internal/sequenceheader"
"github.com/m4tthewde/gov1/internal/uncompressedheader"
)
var _ state.State
var _ bitstream.BitStream
var _ = shared.MAX_SEGMENTS
var _ sequenceheader.SequenceHeader
'''
TG=IM+"var _ uncompressedheader.UncompressedHeader\n"
UH=IM.replace('"github.com/m4tthewde/gov1/internal/uncompressedheader"\n','')

bug('b-ceillog2-pow2','P29',[('util/util.go','for p < x {','for p <= x {')],'util','''
import "testing"
func TestDemo(t *testing.T) {
 for _, c := range [][2]int{{1,0},{2,1},{3,2},{4,2},{5,3},{8,3},{9,4},{64,6}} {
  if v := CeilLog2(c[0]); v != c[1] { t.Fatal(c, v) }
 }
}''','an argument that is an exact power of two','CeilLog2 is one too large on powers of two')

bug('b-subexp-last-interval','P09',[(U,'if numSyms <= mk+3*a {','if numSyms <= mk+4*a {')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 // 28 symbols starting at k=3: more than three intervals are left, so another interval is read first
 b := bitstream.NewBitStream([]byte{0x40, 0, 0})
 u := UncompressedHeader{}
 v := u.decodeSubexp(28, &b)
 if v != 4 || b.Position != 4 { t.Fatal(v, b.Position) }
}''','a symbol count for which the remaining range is between three and four intervals long','the final interval is assumed too early and the value is read with a different code')

bug('b-color-444-12bit','P04',[('sequenceheader/sequence_header.go','''				if c.SubsamplingX {
					c.SubsamplingY = b.F(1) != 0
				} else {
					c.SubsamplingY = false
				}
''','''				c.SubsamplingY = b.F(1) != 0
''')],'sequenceheader','''
import ("testing"
"github.com/m4tthewde/gov1/internal/bitstream"
)
func TestDemo(t *testing.T) {
 // high_bitdepth=1 twelve_bit=1 mono=0 desc=0 range=0 subx=0 separate_uv=1
 b := bitstream.NewBitStream([]byte{0xc2, 0xff})
 c := NewColorConfig(&b, 2)
 if c.SubsamplingX || c.SubsamplingY || !c.SeparateUvDeltaQ || b.Position != 7 { t.Fatal(c, b.Position) }
}''','profile 2, 12-bit, 4:4:4','one bit too many is read for 12-bit 4:4:4 streams, so the header loses sync')

bug('b-cdef-dir-tie','P25',[('tilegroup/cdef.go','if cost[i] > bestCost {','if cost[i] >= bestCost {')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{}
 sh.ColorConfig.BitDepth = 8
 for i := 0; i < 8; i++ { for j := 0; j < 8; j++ { s.CurrFrame[0][i][j] = 90 } }
 y, v := tg.cdefDirection(0, 0, s, sh)
 if y != 0 || v != 0 { t.Fatal(y, v) }
}''','two directions with the same cost, as in a flat block','the last of the best directions is taken instead of the first')

bug('b-dist-weight-tie','P22',[('tilegroup/predict_inter.go','if d0*c0 > d1*c1 {','if d0*c0 >= d1*c1 {')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{EnableOrderHint: true, OrderHintBits: 7}
 s.RefFrames[0][0] = [2]int{1, 2}
 uh := uncompressedheader.UncompressedHeader{OrderHint: 10}
 // distances 3 (list 0) and 2 (list 1): equal against the first weight pair 2:3
 uh.OrderHints[1] = 7
 uh.OrderHints[2] = 12
 tg.distanceWeightsProcess(0, 0, s, uh, sh)
 if tg.FwdWeight != DEMOF || tg.BckWeight != DEMOB { t.Fatal(tg.FwdWeight, tg.BckWeight) }
}'''.replace('DEMOF','Quant_Dist_Lookup[1][1]').replace('DEMOB','Quant_Dist_Lookup[1][0]'),'reference distances exactly in the ratio of one of the weight pairs','the weights of the neighbouring interval are used')

bug('b-clamp-mv-row','P23',[('tilegroup/find_mv_stack.go','((state.MiRows - bh4 - state.MiRow) * MI_SIZE) * 8','((state.MiRows-state.MiRow)*MI_SIZE - bh4) * 8')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{MiRows: 16, MiRow: 8, MiSize: shared.BLOCK_16X16}
 if v := tg.clampMvRow(1000, 0, s); v != 128 { t.Fatal(v) }
 if v := tg.clampMvRow(-1000, 0, s); v != -256 { t.Fatal(v) }
}''','a candidate vector pointing beyond the bottom edge of the frame','the clamp allows vectors up to almost a block height too far')

bug('b-palette-cache-dup','P18',[('tilegroup/palette.go','''		val := t.PaletteColors[plane][state.MiRow-1][state.MiCol][aboveIdx]
		aboveIdx++
		if n == 0 || val != t.PaletteCache[n-1] {''','''		val := t.PaletteColors[plane][state.MiRow-1][state.MiCol][aboveIdx]
		aboveIdx++
		if n == 0 || val != t.PaletteCache[0] {''')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{MiRow: 1, MiCol: 1, AvailU: true, AvailL: true}
 tg.PaletteSizes[0][0][1] = 3
 tg.PaletteSizes[0][1][0] = 2
 tg.PaletteColors[0][0][1] = [8]int{20, 20, 30}
 tg.PaletteColors[0][1][0] = [8]int{5, 20}
 n := tg.getPaletteCache(0, s)
 if n != 3 || tg.PaletteCache[0] != 5 || tg.PaletteCache[1] != 20 || tg.PaletteCache[2] != 30 { t.Fatal(n, tg.PaletteCache) }
}''','a colour left over above that repeats a cached colour other than the first','the palette cache holds a colour twice')

bug('b-lf-delta-v','P24',[('tilegroup/loop_filter_process.go','deltaLF = state.DeltaLFs[row][col][plane+1]','deltaLF = state.DeltaLFs[row][col][plane]')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 s.DeltaLFs[0][0] = [4]int{0, 0, 5, -7}
 uh := uncompressedheader.UncompressedHeader{DeltaLfMulti: 1, DeltaLfPresent: true}
 uh.LoopFilterLevel = [4]int{20, 20, 20, 20}
 a, _, _, _ := tg.adaptiveFilterStrength(0, 0, 1, false, s, uh)
 b, _, _, _ := tg.adaptiveFilterStrength(0, 0, 2, false, s, uh)
 if a != 25 || b != 13 { t.Fatal(a, b) }
}''','per-plane loop filter deltas (delta_lf_multi) with different values for the planes','chroma edges are filtered with the delta of another plane')

bug('b-lr-uvshift','P08',[(U,'sh.ColorConfig.SubsamplingX && sh.ColorConfig.SubsamplingY && usesChromaLr','sh.ColorConfig.SubsamplingX && usesChromaLr')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{EnableRestoration: true}
 sh.ColorConfig.NumPlanes = 3
 sh.ColorConfig.SubsamplingX = true
 b := bitstream.NewBitStream([]byte{0xff, 0xff})
 u.lrParams(&b, s, sh)
 if b.Position != 8 || s.LoopRestorationSize[1] != s.LoopRestorationSize[0] { t.Fatal(b.Position, s.LoopRestorationSize) }
}''','a 4:2:2 stream with chroma loop restoration','a bit that is not there is read as lr_uv_shift')

bug('b-seg-lastactive','P07',[(U,'''				u.LastActiveSegId = i

				if j >= shared.SEG_LVL_REF_FRAME {
					u.SegIdPreSkip = 1
				}
''','''				if j >= shared.SEG_LVL_REF_FRAME {
					u.SegIdPreSkip = 1
					u.LastActiveSegId = i
				}
''')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{PrimaryRefFrame: 0}
 s := &state.State{}
 s.FeatureEnabled[2][0] = 1
 s.FeatureEnabled[1][shared.SEG_LVL_REF_FRAME] = 1
 // enabled, update_map=0, update_data=0
 b := bitstream.NewBitStream([]byte{0x80})
 u.segmentationParams(&b, s)
 if u.LastActiveSegId != 2 || u.SegIdPreSkip != 1 { t.Fatal(u.LastActiveSegId, u.SegIdPreSkip) }
}''','a last segment with only quantizer or filter features','segment ids above the last one with a reference or skip feature become unreadable')
