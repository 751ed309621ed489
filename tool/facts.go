package main

// Facts about the decoder's data that the normaliser may rely on (kept small;
// each is an invariant of every reachable state and used only to pick between
// equivalent arithmetic forms such as x/2 and x>>1).

var nonNegNames = map[string]bool{
	"Position": true, "MiRows": true, "MiCols": true, "MiRow": true, "MiCol": true,
	"FrameWidth": true, "FrameHeight": true, "UpscaledWidth": true, "BitDepth": true,
	"NumPlanes": true, "MiSize": true,
}

func nonNegSym(name string) bool {
	i := len(name)
	for i > 0 && name[i-1] != '.' && name[i-1] != '|' {
		i--
	}
	return nonNegNames[name[i:]]
}

// widthArg: call name -> index of the bit-width argument.  f(n) and L(n) return
// n-bit values; every property whose functions call them has them among its own
// obligations, so a tree in which this does not hold is reported there.
var widthArg = map[string]int{"(*bitstream.BitStream).F": 0, "literal.L": 0}

// nonNegCall: calls whose result is never negative (same remark).
var nonNegCall = map[string]bool{"(*bitstream.BitStream).Leb128": true, "(*bitstream.BitStream).Le": true, "symbol.ReadSymbol": true}

// symmetric: functions whose arguments may be exchanged, by the reference; every
// property whose functions call them has them among its own obligations.
var symmetric = map[string]bool{"util.Max": true, "util.Min": true}
