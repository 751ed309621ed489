import sys; sys.path.insert(0,'/verif/scripts')
from bug import bug
U='uncompressedheader/uncompressed_header.go'
IM='''
import ("testing"
"github.com/m4tthewde/gov1/internal/state"
"github.com/m4tthewde/gov1/internal/bitstream"
"github.com/m4tthewde/gov1/internal/shared"
"github.com/m4tthewde/gov1/internal/sequenceheader"
"github.com/m4tthewde/gov1/internal/uncompressedheader"
)
var _ state.State
var _ bitstream.BitStream
var _ = shared.MAX_SEGMENTS
var _ sequenceheader.SequenceHeader
'''
TG=IM+"var _ uncompressedheader.UncompressedHeader\n"
UH=IM.replace('"github.com/m4tthewde/gov1/internal/uncompressedheader"\n','')


import re
TGX=TG.replace('import (','import (').replace('var _ state.State','var _ state.State',1)
