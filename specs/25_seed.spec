// ---- seeds ----
// the domain separator with its length, hashed first when it is long
def DP(d) = if(blen(d) >= 256, bcat(sha256(bcat("H2C-OVERSIZE-DST-", d)), b1(32)), bcat(d, b1(blen(d))))
def XMD(m, d, n) = xmd(m, DP(d), n)
func seed.ExpandMessageXmd(msg, domainSeparator, length) (r, err)
 prop C05
 requires length >= 0
 fresh r
 ensures err == nil <==> length <= 8160
 ensures err == nil ==> bytes(r) == XMD(bytes(msg), bytes(domainSeparator), length)
func seed.ExpandMessageXmd$1(dst) (r)
 inline
 loop 1
  invariant 2 <= i && i <= ell + 1 || ell == 1 && i == 2
  invariant fresh(out) && fresh(state)
  invariant HK(state) == 1
  invariant bytes(out) == xcat(bytes(b0), bcat(bytes(dst), b1(len(dst))), i - 1)
  invariant bsub(bytes(out), len(out) - 32, 32) == xb(bytes(b0), bcat(bytes(dst), b1(len(dst))), i - 1)
 end
 loop 2
  invariant 0 <= j && j <= 32
  invariant forall k in [0, j) {bat(bytes(tmp), k)} :: bat(bytes(tmp), k) == ixor(bat(bytes(b0), k), bat(xb(bytes(b0), bcat(bytes(dst), b1(len(dst))), i - 1), k))
  invariant j >= 32 ==> bytes(tmp) == bxor(bytes(b0), xb(bytes(b0), bcat(bytes(dst), b1(len(dst))), i - 1))
 end
def SEED(s) = bytes(s.value)
func seed.NewSeed(input, domainSeparator) (r)
 prop C05
 fresh r
 ensures bytes(r.value) == XMD(bytes(input), domainSeparator, 32)
func seed.FromBytes(value) (r)
 prop C05
 fresh r
 ensures bytes(r.value) == XMD(bytes(value), "ic-crypto-seed-from-bytes", 32)
func seed.FromRandomness(s) (r)
 prop C05
 modifies SO(s)
 fresh r
 ensures bytes(r.value) == XMD(SO(s), "ic-crypto-seed-from-randomness", 32)
func seed.FromRng(g) (r)
 prop C05
 requires g.cipher != nil
 modifies CP(g.cipher)
 fresh r
 ensures CP(g.cipher) == old(CP(g.cipher)) + 32
 ensures bytes(r.value) == XMD(ks(CK(g.cipher), CN(g.cipher), old(CP(g.cipher)), 32), "ic-crypto-seed-from-rng", 32)
func (s seed.Seed) Derive(domainSeparator) (r)
 prop C05
 fresh r
 ensures bytes(r.value) == XMD(bytes(s.value), domainSeparator, 32)
func (s seed.Seed) Rng() (r)
 prop C05
 fresh r
 ensures fresh(r.cipher)
 ensures CK(r.cipher) == bytes(s.value) && CN(r.cipher) == bzero(12) && CP(r.cipher) == 0
// ---- the generator: every call gives the next bytes of the key stream ----
func rand.NewChaCha20(s) (r)
 prop C05
 requires len(s) == 32
 fresh r
 ensures fresh(r.cipher)
 ensures CK(r.cipher) == bytes(s) && CN(r.cipher) == bzero(12) && CP(r.cipher) == 0
func (c rand.ChaCha20) Uint32() (r)
 prop C05
 requires c.cipher != nil
 modifies CP(c.cipher)
 ensures CP(c.cipher) == old(CP(c.cipher)) + 4
 ensures r == b2i(ks(CK(c.cipher), CN(c.cipher), old(CP(c.cipher)), 4))
func (c rand.ChaCha20) Uint64() (r)
 prop C05
 requires c.cipher != nil
 modifies CP(c.cipher)
 ensures CP(c.cipher) == old(CP(c.cipher)) + 8
 ensures r == b2i(ks(CK(c.cipher), CN(c.cipher), old(CP(c.cipher)), 8))
func (c *rand.ChaCha20) FillUint8(res) ()
 prop C05
 requires c.cipher != nil
 modifies CP(c.cipher), bytes(res)
 ensures CP(c.cipher) == old(CP(c.cipher)) + len(res)
 ensures bytes(res) == ks(CK(c.cipher), CN(c.cipher), old(CP(c.cipher)), len(res))
 loop 1
  invariant forall k in [0, it) {bat(bytes(res), k)} :: bat(bytes(res), k) == 0
 end
func (c *rand.ChaCha20) XORKeyStream(dst, src) ()
 prop C05
 requires c.cipher != nil
 requires len(dst) >= len(src)
 modifies CP(c.cipher), bytes(dst)
 ensures CP(c.cipher) == old(CP(c.cipher)) + len(src)
 ensures bytes(dst) == bcat(bxor(ks(CK(c.cipher), CN(c.cipher), old(CP(c.cipher)), len(src)), old(bytes(src))), bsub(old(bytes(dst)), len(src), len(dst) - len(src)))
