import sys,os
pre='''package x
type B struct { P int; D []byte }
func (b *B) F(n int) int { x := 0; for i := 0; i < n; i++ { x = 2*x + int(b.D[b.P]); b.P++ }; return x }
type S struct { E, F [8][8]int }
'''
def w(k,s):
    os.makedirs('/tmp/rw/%s/internal/x'%k,exist_ok=True)
    open('/tmp/rw/%s/go.mod'%k,'w').write('module github.com/m4tthewde/gov1\n\ngo 1.19\n')
    open('/tmp/rw/%s/internal/x/x.go'%k,'w').write(pre+s)
n=sys.argv[1]
loop='for i := 0; i < %s; i++ { for j := 0; j < %s; j++ {'%(n,n)
w('m','''func A(s *S, b *B) { %s
		e := b.F(1)
		s.E[i][j] = e
		v := 0
		if e == 1 { v = b.F(5) }
		s.F[i][j] = v
} } }'''%loop)
w('a','''func A(s *S, b *B) { %s
		e := b.F(1)
		s.E[i][j] = e
		s.F[i][j] = 0
		if e == 1 { s.F[i][j] = b.F(5) }
} } }'''%loop)
w('c','''func A(s *S, b *B) { %s
	g(s,b,i,j)
} } }
func g(s *S, b *B,i,j int) {
		e := b.F(1)
		s.E[i][j] = e
		s.F[i][j] = 0
		if e != 1 { return }
		s.F[i][j] = b.F(5)
}
'''%loop)
w('d','''func A(s *S, b *B) { %s
	g(s,b,i,j)
} } }
func g(s *S, b *B,i,j int) {
		e := b.F(1)
		s.E[i][j] = e
		if e == 0 { s.F[i][j] = 0; return }
		if e != 1 { s.F[i][j] = 0; return }
		s.F[i][j] = b.F(5)
}
'''%loop)
