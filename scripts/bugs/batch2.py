exec(open('/verif/scripts/bugs/common.py').read())
bug('b-tile-maxarea','P10',[('tileinfo/tile_info.go','maxTileAreaSb = (sbRows * sbCols) >> (minLog2Tiles + 1)','maxTileAreaSb = (sbRows * sbCols) >> minLog2Tiles')],'tileinfo','''
import ("testing"
"github.com/m4tthewde/gov1/internal/state"
"github.com/m4tthewde/gov1/internal/bitstream"
"github.com/m4tthewde/gov1/internal/sequenceheader"
)
func TestDemo(t *testing.T) {
 // 80 x 40 superblocks: a tile holds at most 2304, so heights are limited to (3200>>2)/64 = 12
 s := &state.State{MiCols: 80*16, MiRows: 40*16}
 d := make([]byte, 40)
 // explicit sizes; widths 64 and 16, forty rows of height 1
 d[0], d[1] = 0x7f, 0xe0
 b := bitstream.NewBitStream(d)
 NewTileInfo(sequenceheader.SequenceHeader{}, s, &b)
 if s.TileCols != 2 || s.TileRows != 40 { t.Fatal(s.TileCols, s.TileRows) }
 // 11 bits of widths, 109 bits of heights, 7 bits of tile id, 2 bits of size
 if b.Position != 129 { t.Fatal(b.Position) }
}''','a frame larger than the largest tile area, with explicit tile sizes','tile heights are read with a wider code than the specification allows')

bug('b-tile-lastsize','P10',[('tilegroup/tile_group.go','lastTile := state.TileNum == tgEnd','lastTile := state.TileNum == NumTiles-1')],'tilegroup',TG.replace('"testing"','"testing"\n"reflect"')+'''
func fill(v reflect.Value) {
 switch v.Kind() {
 case reflect.Slice:
  if v.Type().Elem().Kind() == reflect.Int { v.Set(reflect.ValueOf([]int{32768, 0})) }
 case reflect.Array:
  for i := 0; i < v.Len(); i++ { fill(v.Index(i)) }
 case reflect.Struct:
  for i := 0; i < v.NumField(); i++ {
   if n := v.Type().Field(i).Name; len(n) > 3 && n[len(n)-3:] == "Cdf" { fill(v.Field(i)) }
  }
 }
}
func TestDemo(t *testing.T) {
 // two tiles, sent in two groups: the only tile of the first group carries no size
 tg := &TileGroup{}
 s := &state.State{TileCols: 2, TileRows: 1, TileColsLog2: 1, TileSizeBytes: 1, MiRowStarts: []int{0, 0}, MiColStarts: []int{0, 0, 0}}
 fill(reflect.ValueOf(s).Elem())
 // start/end present, start=0, end=0, padding, then the data of tile 0
 b := bitstream.NewBitStream([]byte{0x80, 0x00, 0x12, 0x34, 0x80, 0, 0, 0, 0, 0, 0, 0})
 uh := uncompressedheader.UncompressedHeader{DisableFrameEndUpdateCdf: true}
 sh := sequenceheader.SequenceHeader{}
 tg.build(5, &b, s, uh, sh)
 if b.Position != 40 { t.Fatal(b.Position) }
}''','a frame whose tiles are split over several tile groups','the last tile of every group but the final one is read with a size field')

bug('b-seg-lossless','P05',[('uncompressedheader/uncompressed_header.go','u.AllLossless = u.CodedLossless && (u.FrameWidth == u.UpscaledWidth)','u.AllLossless = u.CodedLossless')],'uncompressedheader',UH.replace('"github.com/m4tthewde/gov1/internal/sequenceheader"','"github.com/m4tthewde/gov1/internal/sequenceheader"\n"github.com/m4tthewde/gov1/internal/header"')+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{}
 s := &state.State{}
 sh := sequenceheader.SequenceHeader{ReducedStillPictureHeader: true, EnableSuperRes: true, MaxFrameWidthMinusOne: 15, MaxFrameHeightMinusOne: 15}
 sh.ColorConfig.NumPlanes = 3
 // disable_cdf_update=1, superres=1 denom=111, render=0, uniform tiles, base_q_idx=0 (lossless)
 b := bitstream.NewBitStream([]byte{0xF8, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0})
 u.build(header.Header{}, sh, s, &b)
 if !u.UseSuperRes || !u.CodedLossless || u.AllLossless { t.Fatal(u.UseSuperRes, u.CodedLossless, u.AllLossless) }
}''','a lossless frame coded with super-resolution','a super-resolved lossless frame is taken to be lossless after upscaling too, so its loop restoration is not read')

bug('b-superres-round','P06',[('uncompressedheader/uncompressed_header.go','u.FrameWidth = (u.UpscaledWidth*shared.SUPERRES_NUM + (u.SuperResDenom / 2)) / u.SuperResDenom','u.FrameWidth = (u.UpscaledWidth*shared.SUPERRES_NUM + (shared.SUPERRES_NUM / 2)) / u.SuperResDenom')],'uncompressedheader',UH+'''
func TestDemo(t *testing.T) {
 u := UncompressedHeader{FrameWidth: 9}
 b := bitstream.NewBitStream([]byte{0xf0, 0})
 u.superResParams(&b, sequenceheader.SequenceHeader{EnableSuperRes: true})
 if u.SuperResDenom != 16 || u.UpscaledWidth != 9 || u.FrameWidth != 5 { t.Fatal(u.SuperResDenom, u.FrameWidth) }
}''','super-resolution with a large denominator and a width whose quotient is rounded','the coded width is one sample too small for some widths')

bug('b-refload-orderhints','P27',[('tilegroup/decode_frame_wrapup.go','u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j+shared.LAST_FRAME]','u.OrderHints[j+shared.LAST_FRAME] = state.SavedOrderHints[u.FrameToShowMapIdx][j]')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 for i := range s.SavedOrderHints[3] { s.SavedOrderHints[3][i] = 10 + i }
 u := uncompressedheader.UncompressedHeader{FrameToShowMapIdx: 3}
 sh := sequenceheader.SequenceHeader{}
 tg.referenceFrameLoadingProcess(s, &u, &sh)
 if u.OrderHints[1] != 11 || u.OrderHints[7] != 17 { t.Fatal(u.OrderHints) }
}''','a key frame shown through show_existing_frame, whose slots are then used for order-hint arithmetic','the loaded order hints are shifted by one reference')

bug('b-refupdate-segids','P27',[('tilegroup/decode_frame_wrapup.go','state.SavedSegmentIds[i][row][col] = t.SegmentIds[row][col]','state.SavedSegmentIds[0][row][col] = t.SegmentIds[row][col]')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{MiRows: 2, MiCols: 2}
 tg.SegmentIds[1][1] = 5
 tg.referenceFrameUpdate(s, uncompressedheader.UncompressedHeader{RefreshFrameFlags: 4}, sequenceheader.SequenceHeader{})
 if s.SavedSegmentIds[2][1][1] != 5 || s.SavedSegmentIds[0][1][1] != 0 { t.Fatal("segment ids saved in the wrong slot") }
}''','a refresh of a slot other than 0 with segmentation, and a later frame that inherits the map','the segmentation map is saved in slot 0 whatever slot is refreshed')

bug('b-cdf-endupdate-swap','P13',[('tilegroup/tile_group.go','	state.PaletteSize6UVColorCdf = state.SavedPaletteSize6UVColorCdf','	state.PaletteSize6UVColorCdf = state.SavedPaletteSize6YColorCdf')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 s.SavedPaletteSize6UVColorCdf = [][]int{{1}}
 s.SavedPaletteSize6YColorCdf = [][]int{{2}}
 tg.frameEndUpdateCdf(s)
 if s.PaletteSize6UVColorCdf[0][0] != 1 || s.PaletteSize6YColorCdf[0][0] != 2 { t.Fatal("wrong table") }
}''','a frame with six-colour chroma palettes after a frame that adapted them','the chroma colour index table of size 6 is replaced with (and shares storage with) the luma one')

bug('b-cdf-save-lasttile','P13',[('tilegroup/tile_group.go','if !uh.DisableFrameEndUpdateCdf && state.TileNum == uh.TileInfo.ContextUpdateTileId {','if !uh.DisableFrameEndUpdateCdf && state.TileNum >= uh.TileInfo.ContextUpdateTileId {')],'tilegroup',TG+'''
func TestDemo(t *testing.T) {
 tg := &TileGroup{}
 s := &state.State{}
 b := bitstream.NewBitStream(make([]byte, 8))
 uh := uncompressedheader.UncompressedHeader{}
 uh.TileInfo.ContextUpdateTileId = 1
 for i := 0; i < 4; i++ {
  s.TileNum = i
  s.TileSkipCdf = [][]int{{i}}
  tg.exitSymbol(&b, s, uh)
 }
 if s.SavedSkipCdf[0][0] != 1 { t.Fatal(s.SavedSkipCdf) }
}''','several tiles, with a context update tile that is not the last one','the tables of a later tile replace those of the context update tile')

bug('b-obu-drop-spatial','P03',[('obu/obu.go','if !inTemporalLayer || !inSpatialLayer {','if !inTemporalLayer && !inSpatialLayer {')],'obu','''
import ("testing"
"github.com/m4tthewde/gov1/internal/state"
"github.com/m4tthewde/gov1/internal/bitstream"
"github.com/m4tthewde/gov1/internal/logger"
"github.com/m4tthewde/gov1/internal/sequenceheader"
"github.com/m4tthewde/gov1/internal/uncompressedheader"
)
func TestDemo(t *testing.T) {
 logger.Initialize()
 // padding obu (type 15), extension, no size; temporal id 0, spatial id 1; operating point: spatial layer 0 only
 s := &state.State{OperatingPointIdc: 0x101}
 b := bitstream.NewBitStream([]byte{15<<3 | 4, 1 << 3, 0, 0, 0})
 b2 := bitstream.NewBitStream([]byte{4<<3 | 4, 1 << 3, 0, 0, 0})
 o := NewObu(5, s, &b, sequenceheader.SequenceHeader{}, uncompressedheader.UncompressedHeader{})
 if b.Position != 40 || o.Size != 3 { t.Fatal(b.Position) }
 // a tile group of a dropped layer must not be decoded
 defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
 s.SeenFrameHeader = true
 NewObu(5, s, &b2, sequenceheader.SequenceHeader{}, uncompressedheader.UncompressedHeader{})
 if b2.Position != 40 || !s.SeenFrameHeader { t.Fatal(b2.Position, s.SeenFrameHeader) }
}''','a layered stream with units of a spatial layer outside the chosen operating point','units of layers outside the operating point are decoded')

bug('b-parser-leb','P03',[('parser/parser.go','''		frameUnitSize := p.bitStream.Leb128()
		sz -= p.bitStream.Leb128Bytes
		p.frameUnit(frameUnitSize)
''','''		frameUnitSize := p.bitStream.Leb128()
		p.frameUnit(frameUnitSize)
		sz -= p.bitStream.Leb128Bytes
''')],'parser','''
import ("testing"
"github.com/m4tthewde/gov1/internal/bitstream"
)
func TestDemo(t *testing.T) {
 // one temporal unit of 4 bytes: a frame unit with a two-byte length holding a temporal delimiter
 // followed by a second temporal unit
 td := []byte{0x85, 0x80, 0x00, 0x02, 0x01, 0x10}
 data := append([]byte{6}, td...)
 data[1], data[2] = 0x82, 0x00 // frame unit length 2 in two bytes
 data = []byte{4, 0x82, 0x00, 0x01, 0x10, 4, 0x82, 0x00, 0x01, 0x10}
 b := bitstream.NewBitStream(data)
 p := NewParser(&b)
 defer func() { if e := recover(); e != nil { t.Fatal(e) } }()
 o := p.bitstream()
 if len(o) != 2 || b.Position != 80 { t.Fatal(len(o), b.Position) }
}''','a frame unit whose size takes more bytes than the size of its last obu','the number of length bytes is taken from the wrong field, so the temporal unit overruns')
