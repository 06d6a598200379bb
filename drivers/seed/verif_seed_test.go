package seed_test

import (
	"encoding/binary"
	"testing"

	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"
	vx "github.com/PlatONnetwork/tecdsa/verifx"
	"golang.org/x/crypto/chacha20"
)

// stream is the key stream of a seed, from the block function of RFC 8439 written out here.
func stream(key []byte, n int) []byte {
	rot := func(x uint32, k uint) uint32 { return x<<k | x>>(32-k) }
	var st [16]uint32
	st[0], st[1], st[2], st[3] = 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574
	for i := 0; i < 8; i++ {
		st[4+i] = binary.LittleEndian.Uint32(key[4*i:])
	}
	var out []byte
	for len(out) < n {
		w := st
		q := func(a, b, c, d int) {
			w[a] += w[b]
			w[d] = rot(w[d]^w[a], 16)
			w[c] += w[d]
			w[b] = rot(w[b]^w[c], 12)
			w[a] += w[b]
			w[d] = rot(w[d]^w[a], 8)
			w[c] += w[d]
			w[b] = rot(w[b]^w[c], 7)
		}
		for i := 0; i < 10; i++ {
			q(0, 4, 8, 12)
			q(1, 5, 9, 13)
			q(2, 6, 10, 14)
			q(3, 7, 11, 15)
			q(0, 5, 10, 15)
			q(1, 6, 11, 12)
			q(2, 7, 8, 13)
			q(3, 4, 9, 14)
		}
		var b [64]byte
		for i := range w {
			binary.LittleEndian.PutUint32(b[4*i:], w[i]+st[i])
		}
		out = append(out, b[:]...)
		st[12]++
	}
	return out[:n]
}

type fixed struct{ v []byte }

func (f *fixed) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i] ^ f.v[i]
	}
	f.v = f.v[len(src):]
}
func (f *fixed) FillUint8(r []byte) { copy(r, f.v); f.v = f.v[len(r):] }
func (f *fixed) Uint32() uint32     { panic("unused") }
func (f *fixed) Uint64() uint64     { panic("unused") }

func rngIs(s *seed.Seed, key []byte) bool {
	b := make([]byte, 40)
	s.Rng().FillUint8(b)
	return vx.Eq(b, stream(key, 40))
}

func TestVerif_C05_expand(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	dl := []int{0, 1, 30, 31, 32, 33, 100, 254, 255, 256, 257, 300, 1000}
	lens := []int{0, 1, 31, 32, 33, 47, 48, 63, 64, 65, 95, 96, 97, 255, 256, 257, 8128, 8129, 8159, 8160}
	for i := 0; i < vx.N(40); i++ {
		msg, dst := r.Bytes(r.R.Intn(200)), r.Bytes(dl[i%len(dl)])
		for _, n := range append(lens, r.R.Intn(8161), r.R.Intn(300)) {
			if n > 8000 && i%8 != 0 {
				continue
			}
			r.Case("xmd", func() {
				m0, d0 := vx.Copy(msg), vx.Copy(dst)
				o, err := seed.ExpandMessageXmd(msg, dst, n)
				if err != nil || !vx.Eq(o, vx.Xmd(msg, dst, n)) {
					r.Failf("ExpandMessageXmd(%x, %x, %d) is wrong: %v", msg, dst, n, err)
				}
				if !vx.Eq(msg, m0) || !vx.Eq(dst, d0) {
					r.Failf("ExpandMessageXmd(%x, %x, %d) changes its arguments", m0, d0, n)
				}
			})
		}
		for _, n := range []int{8161, 8162, 8192, 65535, 65536, 1 << 20, 1 << 40, 1<<63 - 1} {
			r.Case("long", func() {
				if o, err := seed.ExpandMessageXmd(msg, dst, n); err == nil {
					r.Failf("ExpandMessageXmd of length %d gives %d bytes", n, len(o))
				}
			})
		}
	}
}

func TestVerif_C05_seeds(t *testing.T) {
	r := vx.Start(t)
	defer r.Done()
	ref, _ := chacha20.NewUnauthenticatedCipher(make([]byte, 32), make([]byte, 12))
	rb := make([]byte, 200)
	ref.XORKeyStream(rb, rb)
	if !vx.Eq(rb, stream(make([]byte, 32), 200)) {
		t.Fatalf("oracle is wrong")
	}
	for i := 0; i < vx.N(60); i++ {
		in, ds := r.Bytes(r.R.Intn(100)), string(r.Bytes(1+r.R.Intn(300)))
		r.Case("seeds", func() {
			c := vx.Copy(in)
			k := vx.Xmd(in, []byte(ds), 32)
			s := seed.NewSeed(in, ds)
			if !rngIs(s, k) {
				r.Failf("NewSeed(%x, %x)", in, ds)
			}
			if !rngIs(s, k) {
				r.Failf("NewSeed(%x, %x): the second generator differs", in, ds)
			}
			l := string(r.Bytes(r.R.Intn(40)))
			k2 := vx.Xmd(k, []byte(l), 32)
			d := s.Derive(l)
			if !rngIs(d, k2) || !rngIs(s, k) {
				r.Failf("Derive(%x)", l)
			}
			if !rngIs(d.Derive(ds), vx.Xmd(k2, []byte(ds), 32)) {
				r.Failf("Derive of a derived seed")
			}
			if !rngIs(seed.FromBytes(in), vx.Xmd(in, []byte("ic-crypto-seed-from-bytes"), 32)) {
				r.Failf("FromBytes(%x)", in)
			}
			f := r.Bytes(64)
			if !rngIs(seed.FromRng(&fixed{f}), vx.Xmd(f[:32], []byte("ic-crypto-seed-from-rng"), 32)) {
				r.Failf("FromRng")
			}
			if !rngIs(seed.FromRandomness(&fixed{f}), vx.Xmd(f[:32], []byte("ic-crypto-seed-from-randomness"), 32)) {
				r.Failf("FromRandomness")
			}
			if !vx.Eq(in, c) {
				r.Failf("a seed constructor changes its input")
			}
		})
	}
	for i := 0; i < vx.N(60); i++ {
		key := r.Bytes(32)
		r.Case("stream", func() {
			k0 := vx.Copy(key)
			c := rand.NewChaCha20(key)
			w := stream(key, 6000)
			pos, log := 0, ""
			for pos < 5000 {
				switch r.R.Intn(4) {
				case 0:
					v, x := c.Uint32(), binary.BigEndian.Uint32(w[pos:])
					pos += 4
					log += " u32"
					if v != x {
						r.Failf("key %x after%s: Uint32 = %x, want %x", key, log, v, x)
						return
					}
				case 1:
					v, x := c.Uint64(), binary.BigEndian.Uint64(w[pos:])
					pos += 8
					log += " u64"
					if v != x {
						r.Failf("key %x after%s: Uint64 = %x, want %x", key, log, v, x)
						return
					}
				case 2:
					b := r.Bytes(r.R.Intn(90))
					if r.R.Intn(8) == 0 {
						b = r.Bytes(300 + r.R.Intn(400))
					}
					c.FillUint8(b)
					log += " fill"
					if !vx.Eq(b, w[pos:pos+len(b)]) {
						r.Failf("key %x after%s: FillUint8 of %d", key, log, len(b))
						return
					}
					pos += len(b)
				case 3:
					b := r.Bytes(r.R.Intn(90))
					src := vx.Copy(b)
					d := r.Bytes(len(b))
					if r.R.Intn(2) == 0 {
						d = b
					}
					c.XORKeyStream(d, b)
					log += " xor"
					for j := range src {
						if d[j] != src[j]^w[pos+j] {
							r.Failf("key %x after%s: XORKeyStream of %d", key, log, len(b))
							return
						}
					}
					pos += len(b)
				}
			}
			if !vx.Eq(k0, key) {
				r.Failf("the generator changes the seed")
			}
		})
	}
}
