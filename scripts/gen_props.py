#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the wording stays in one place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=["internal/"+f for f in files],
      mechanism=[dict(name=a,where="internal/"+b) for a,b in mech])))
I=["inputs"]; IH=["inputs","histories"]
p("P01","Every part of the decoder compiles together, without import cycles",
 "All packages of the decoder can be built into one program, so that a bitstream can be taken all the way from framing to output frames. The layers depend on each other in one direction only: bit reading and arithmetic below header parsing, header parsing below tile decoding, tile decoding below unit framing, framing below the stream parser.",
 ["programs","configurations"],"every package and every import edge of the source tree",
 "The build and the test run skip packages that sit on an import cycle, so a cycle silently removes the header, tile, framing and parser packages from everything the tests see.",
 ["obu/obu.go","uncompressedheader/uncompressed_header.go","tilegroup/tile_group.go"],[("package imports","*/")])
p("P02","The bit reader decodes every primitive descriptor exactly",
 "For every byte string and start position, reading n bits returns the next n bits most significant first and advances by exactly n; the derived descriptors (unsigned variable length, little endian, leb128, signed, non-symmetric) return the value the AV1 specification defines and consume exactly its bits. Byte alignment and trailing bits stop at the next byte boundary.",
 I,"all buffers, positions and widths","Three tests read a handful of bytes; values depend on every bit pattern and position.",
 ["bitstream/bitstream.go"],[("f(n), leb128, su, ns, le, uvlc","bitstream/bitstream.go")])
p("P03","Unit framing: each OBU is parsed, dropped or refused, at the right offsets",
 "A temporal unit is split into frame units and OBUs exactly by the coded sizes; every OBU starts where the previous one ended, whatever its type, extension, size field or padding, and OBUs outside the selected operating point are skipped whole. A sequence or frame header found in one OBU is the one used for the following OBUs, a repeated frame header repeats the first, and the frame-header state survives from one unit to the next; unsupported OBU types are refused rather than misread.",
 IH,"all sequences of OBUs, sizes, extensions and operating points","The end-to-end test only logs; unit tests decode two header bytes.",
 ["parser/parser.go","obu/obu.go","header/header.go"],[("temporal_unit / frame_unit loops","parser/parser.go"),("open_bitstream_unit","obu/obu.go"),("obu_header","header/header.go")])
p("P04","Sequence headers are parsed field for field as specified",
 "Every field of a sequence header, including operating points, decoder model and timing information, frame size limits, tool switches, order hint size and colour configuration, takes the value and consumes the bits that AV1 specifies for the flags read before it. Nothing is skipped or invented for reduced still-picture headers.",
 I,"all sequence header bit strings","No test parses a sequence header; conditions nest several levels deep.",
 ["sequenceheader/sequence_header.go"],[("sequence_header_obu","sequenceheader/sequence_header.go"),("color_config","sequenceheader/sequence_header.go")])
p("P05","Frame headers are parsed as specified and set up the frame's decoding state",
 "For every frame type, show-existing frame and error-resilient setting, the frame header reads exactly the syntax elements that AV1 codes, derives the same reference refresh set, screen-content, integer-motion-vector, order-hint and primary-reference values, and initialises or reloads the saved context it designates. Identifier and buffer-removal fields keep the reader in step even when their values are not otherwise used.",
 IH,"all frame header bit strings in every sequence-header and reference state","Nine tests cover isolated one-line sub-functions.",
 ["uncompressedheader/uncompressed_header.go"],[("uncompressed_header","uncompressedheader/uncompressed_header.go")])
p("P06","Frame size, superres, render size and reference selection are derived right",
 "Frame width and height, superres scaling, render size, dimensions in 4x4 units, sizes copied from a reference, and the implicit selection of references from order hints come out as AV1 specifies for every header. The relative order of two frames is computed modulo the coded order-hint range.",
 IH,"all size, superres and order-hint values and reference states","Sizes and order hints interact through state left by earlier frames.",
 ["uncompressedheader/uncompressed_header.go"],[("frame_size, superres_params, set_frame_refs, get_relative_dist","uncompressedheader/uncompressed_header.go")])
p("P07","Quantizer, segmentation and delta-q/delta-lf parameters follow the syntax",
 "Base quantizer, per-plane deltas and quantizer matrices, segmentation features with their bit widths, signs and clipping, and the block-level delta parameters take the coded values, and defaults where not coded. Segment-dependent quantizer index and losslessness are derived from them for every segment.",
 I,"all headers and segment ids","Value ranges and feature combinations are far beyond the sampled headers.",
 ["uncompressedheader/uncompressed_header.go","tilegroup/quantizer.go"],[("quantization_params, segmentation_params, delta_q_params, get_qidx","uncompressedheader/uncompressed_header.go")])
p("P08","Loop-filter, CDEF, loop-restoration and transform-mode parameters are exact",
 "In-loop filter levels, sharpness and deltas, CDEF damping and strengths, restoration types and unit sizes and the frame's transform mode are read and derived as specified, including the values implied for lossless frames and for intra block copy.",
 I,"all headers","Each field's presence depends on flags read much earlier.",
 ["uncompressedheader/uncompressed_header.go"],[("loop_filter_params, cdef_params, lr_params, read_tx_mode","uncompressedheader/uncompressed_header.go")])
p("P09","Reference mode, skip mode, global motion and film grain parameters are exact",
 "Compound reference use, the skip-mode frame pair, per-reference global motion parameters (coded relative to the previous frame's) and film grain parameters are parsed and derived as AV1 specifies for every frame header.",
 IH,"all headers and previous-parameter states","Global motion decoding is relative to history; tests use zero states.",
 ["uncompressedheader/uncompressed_header.go"],[("skip_mode_params, global_motion_params, film_grain_params","uncompressedheader/uncompressed_header.go")])
p("P10","Tiles partition the frame and tile data is split and decoded in order",
 "The tile grid read from the header covers every superblock exactly once within the specified limits, tile groups hand each tile exactly its coded bytes in order, and each tile starts from clean above/left contexts and block-level state. The frame is finished exactly when its last tile is decoded.",
 IH,"all tile configurations, tile-group splits and sizes","No test decodes a tile.",
 ["tileinfo/tile_info.go","tilegroup/tile_group.go"],[("tile_info","tileinfo/tile_info.go"),("tile_group_obu, decode_tile, clear contexts","tilegroup/tile_group.go")])
p("P11","The arithmetic decoder returns the coded symbols and adapts as specified",
 "For every initial byte range, bit budget and probability table, each decoded symbol or literal equals the one AV1's arithmetic decoder yields, the decoder state and consumed bits agree after it, and the probability table is adapted exactly when adaptation is enabled.",
 IH,"all data, tables and symbol sequences","One wrong carry or rate only shows after long symbol sequences.",
 ["symbol/symbol.go","literal/literal.go"],[("init_symbol, read_symbol, read_bool","symbol/symbol.go"),("L(n), NS via literals","literal/literal.go")])
p("P12","Every default probability table is the one the specification lists",
 "Each default probability table has the specified number of contexts and symbols and the specified values, ends in 32768 followed by a zero counter, and is non-decreasing. A context that starts from defaults starts from these, with coefficient tables chosen by quantizer range.",
 ["inputs","configurations"],"all tables, contexts and entries","Thousands of constants no test reads.",
 ["uncompressedheader/cdf.go"],[("default tables, init_non_coeff_cdfs, init_coeff_cdfs","uncompressedheader/cdf.go")])
p("P13","Probability contexts are isolated between tiles, frames and the defaults",
 "Adaptation while decoding one tile changes only that tile's probabilities: defaults, saved reference contexts and the frame's starting point for other tiles stay intact. After the frame, the context saved is the one of the designated tile with counters cleared, every table included, and a frame that designates a reference starts from exactly what that reference saved.",
 IH,"all sequences of tiles and frames","Needs several frames or tiles with adaptation; tests decode none.",
 ["tilegroup/tile_group.go","uncompressedheader/cdf.go","tilegroup/decode_frame_wrapup.go"],[("init/exit symbol, save/load cdfs","tilegroup/tile_group.go")])
p("P14","Intra-frame block modes are decoded with the specified contexts and order",
 "For every block of an intra frame, segment id, skip, CDEF index, delta values, intra-block-copy, luma and chroma modes, angle deltas, chroma-from-luma and filter-intra are read in the specified order, only when coded, from the probability table selected by the specified neighbour context, and stored with the specified defaults otherwise.",
 IH,"all blocks, neighbours and header states","Context derivations depend on arbitrary neighbours.",
 ["tilegroup/intra_frame_mode_info.go","tilegroup/decode_block.go"],[("intra_frame_mode_info","tilegroup/intra_frame_mode_info.go")])
p("P15","Inter-frame block modes are decoded with the specified contexts and order",
 "For every block of an inter frame, segment id prediction, skip mode, reference frames, prediction modes, motion mode, interpolation filters and compound type are read in the specified order, only when coded, with the specified neighbour contexts, and with the specified defaults otherwise.",
 IH,"all blocks, neighbours, reference and header states","Reference contexts count arbitrary neighbours.",
 ["tilegroup/inter_frame_mode_info.go","tilegroup/inter_block_mode_info.go"],[("inter_frame_mode_info, inter_block_mode_info","tilegroup/inter_frame_mode_info.go")])
p("P16","Partition trees cover each superblock exactly, including frame edges",
 "Every partition symbol splits a block into the sub-blocks AV1 defines, at their positions and sizes and in order, and at the frame's right and bottom edge the implied or reduced partition choices are used. Each 4x4 unit inside the frame is decoded exactly once.",
 I,"all partition choices, block sizes and edge positions","Edge geometry depends on frame size and recursion depth.",
 ["tilegroup/decode_partition.go"],[("decode_partition","tilegroup/decode_partition.go")])
p("P17","Transform sizes and types are read, implied and recorded as specified",
 "The transform size of every block, uniform or split recursively, intra or inter, and its transform type are read with the specified contexts or implied by mode, size, losslessness and reduced sets, and recorded for all the 4x4 units they cover.",
 IH,"all blocks, modes and neighbours","Depends on neighbour sizes and recursion.",
 ["tilegroup/tx_size.go","tilegroup/transform.go"],[("read_block_tx_size, read_tx_size","tilegroup/tx_size.go")])
p("P18","Palette colours and colour maps are decoded as specified",
 "Palette sizes, colours (from the neighbours' cache, delta coded or literal, sorted where required) and the colour index map in wavefront order with its neighbour contexts come out as specified, for luma and both chroma planes and any bit depth.",
 IH,"all palettes, neighbours, block shapes","Cache merging and wavefront contexts depend on neighbours.",
 ["tilegroup/palette.go","tilegroup/palette_tokens.go"],[("palette_mode_info, get_palette_cache","tilegroup/palette.go"),("palette_tokens","tilegroup/palette_tokens.go")])
p("P19","Coefficient tokens are decoded with the specified contexts and scan order",
 "For every transform block the all-zero flag, end of block, base levels, ranges, golomb tails and signs are read with the specified contexts, placed by the specified scan and clamped as specified, and the neighbours' contexts are updated for all the positions covered.",
 IH,"all transform sizes, types, planes and neighbour contexts","Contexts are sums over many positions.",
 ["tilegroup/coeffs.go"],[("coeffs","tilegroup/coeffs.go")])
p("P20","Residuals are dequantized and inverse transformed exactly",
 "Residual blocks are visited in the specified order, dequantized with the specified tables, weights and clamps, inverse transformed bit-exactly for each size and type pair, and added to the prediction with clipping to the bit depth.",
 I,"all coefficient values, sizes, types, quantizers and bit depths","Bit-exactness over a huge numeric domain.",
 ["tilegroup/residual.go","tilegroup/reconstruct.go","tilegroup/transform.go","tilegroup/quantizer.go"],[("residual","tilegroup/residual.go"),("reconstruction, inverse transform","tilegroup/reconstruct.go")])
p("P21","Intra prediction produces the specified samples for every mode and edge",
 "For each intra mode, block size and availability of neighbours, the predicted samples (DC, smooth, Paeth, directional with edge filtering and upsampling, recursive filter, palette, chroma from luma) equal those of the specification.",
 I,"all modes, angles, sizes, edges and sample values","Numeric and edge-availability combinations.",
 ["tilegroup/predict_intra.go"],[("intra prediction process","tilegroup/predict_intra.go")])
p("P22","Inter prediction produces the specified samples",
 "Motion-compensated prediction, with scaling, sub-sample filtering, global and local warping, overlapped blocks, inter-intra, wedge, difference and distance weighting and rounding, produces the specified samples for every motion vector, reference and block.",
 I,"all vectors, references, masks and sizes","Numeric and geometric combinations.",
 ["tilegroup/predict_inter.go","tilegroup/compute_prediction.go","wedgemask/wedge_mask.go"],[("motion vector scaling, block inter prediction, warp","tilegroup/predict_inter.go"),("wedge masks","wedgemask/wedge_mask.go")])
p("P23","Motion vector candidates and coded vectors are derived as specified",
 "The list of candidate vectors built from spatial, temporal and global sources, its weights, ordering and contexts, and the vectors assigned from it with their coded differences, agree with the specification for every neighbourhood and reference state, intra block copy included.",
 IH,"all neighbourhoods and motion fields","Scans of neighbours and previous frames.",
 ["tilegroup/find_mv_stack.go","tilegroup/assign_mv.go"],[("find_mv_stack","tilegroup/find_mv_stack.go"),("assign_mv, read_mv","tilegroup/assign_mv.go")])
p("P24","Deblocking filters exactly the specified edges with the specified taps",
 "Every transform edge, in every plane and direction, is filtered or left alone as specified, with the level, limits, size and taps that AV1 derives from the blocks on both sides.",
 I,"all block layouts, levels and samples","Combination of layout and numeric thresholds.",
 ["tilegroup/loop_filter_process.go"],[("loop filter process","tilegroup/loop_filter_process.go")])
p("P25","CDEF filters each 8x8 block as specified",
 "Constrained directional enhancement finds the direction and variance of each non-skipped 8x8 block and applies primary and secondary taps with the coded strengths and damping as specified, reading only pixels available to it and from the deblocked frame; the index read for a 64x64 area is stored for all of it.",
 I,"all frames, strengths and skip patterns","Numeric and boundary combinations.",
 ["tilegroup/cdef.go","cdef/cdef.go"],[("cdef process","tilegroup/cdef.go"),("read / clear cdef","cdef/cdef.go")])
p("P26","Loop restoration is parsed and applied as specified",
 "Per-unit restoration type and coefficients are read relative to their references with the specified codes, and Wiener and self-guided filters are applied per unit and stripe with the specified boundary rows and rounding.",
 IH,"all units, coefficients and samples","Coded relative to history; stripe boundaries.",
 ["tilegroup/read_loop_restoration.go","tilegroup/loop_restoration.go"],[("read_lr","tilegroup/read_loop_restoration.go"),("loop restoration process","tilegroup/loop_restoration.go")])
p("P27","Finished frames update, and shown or loaded references restore, the right slots",
 "When a frame is finished, exactly the reference slots selected for refresh take over its samples, sizes, identifiers, motion, segmentation, loop filter, global motion and probability state. Showing an existing frame or loading previous state restores exactly what was saved in the chosen slot, and the output has the frame's cropped size and planes.",
 IH,"all refresh masks, slots and frame sequences","Errors only show several frames later.",
 ["tilegroup/decode_frame_wrapup.go","tilegroup/output.go","state/state.go"],[("decode_frame_wrapup, reference frame update/loading","tilegroup/decode_frame_wrapup.go"),("output process","tilegroup/output.go")])
p("P28","Decoding is a function of the stream alone",
 "Decoding the same bytes gives the same result however many streams were decoded before in the process, in whatever order: no decoding result depends on mutable global state, map order, time, randomness, the environment or concurrency.",
 ["histories","schedules","inputs"],"all histories and interleavings of decoder uses","Tests decode nothing twice.",
 ["state/state.go","uncompressedheader/cdf.go"],[("package-level variables never written","*/")])
p("P29","The arithmetic helpers compute their mathematical definitions",
 "Rounding shifts, clips, logarithms, signed rounding, bit reversal, sine/cosine lookups, inverse recentering, segment-id de-interleaving and the other arithmetic helpers return the specified value for every argument.",
 I,"all arguments","One test exercises one helper.",
 ["util/util.go"],[("mathematical functions","util/util.go")])
p("P30","The specification's constants and lookup tables are transcribed exactly",
 "Every named constant and every non-probability lookup table (block and transform sizes, scans, quantizer, filter, warp, mask, gaussian and context tables) has the specified shape and values and is never modified.",
 ["configurations","inputs"],"all constants, tables and entries","Thousands of constants no test reads.",
 ["shared/constants.go","tilegroup/quantizer.go","tilegroup/coeffs.go","tilegroup/predict_inter.go","tilegroup/predict_intra.go"],[("constants","shared/constants.go"),("tables","tilegroup/")])
p("P31","Storage is large enough for every conformant frame",
 "For every conformant stream, of any frame size, tile layout and block position, all decoder accesses stay inside the storage allocated for samples, modes and contexts, so that decoding never aborts with an out-of-range access.",
 IH,"all frame sizes and block positions","Depends on runtime sizes.",
 ["state/state.go"],[("fixed-size frame storage","state/state.go")])
p("P32","Post-processing stages run in order and superres frames are upscaled exactly",
 "A decoded frame is deblocked, CDEF filtered, upscaled and restored in that order, each stage reading the samples the specification feeds it. With superres every row of every plane is resampled to the upscaled width with the specified step, phase, taps, edge clamping and rounding; without superres the samples reach loop restoration unchanged.",
 IH,"all frames, denominators, subsamplings and sample values","Superres is rare and its arithmetic depends on both widths.",
 ["tilegroup/decode_frame_wrapup.go","tilegroup/tile_group.go"],[("upscaling process","tilegroup/decode_frame_wrapup.go"),("decode_frame_wrapup","tilegroup/tile_group.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
