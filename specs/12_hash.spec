// ---- hashing, streams, byte order ----
ghost HK (Array Int Int)     // hash.Hash: 1 SHA-256, 2 HMAC-SHA-512
ghost HKEY (Array Int Bytes) // its key
ghost HS (Array Int Bytes)   // what was written since the last reset
ghost CK (Array Int Bytes)   // chacha20.Cipher: key
ghost CN (Array Int Bytes)   // nonce
ghost CP (Array Int Int)     // bytes of key stream used
ghost SO (Array Int Bytes)   // cipher.Stream: key stream bytes used by the last call

extern sha256.New() (r)
 fresh r
 ensures HK(r) == 1 && HS(r) == ""
 why crypto/sha256
extern sha512.New() (r)
 fresh r
 why crypto/sha512
extern (h hash.Hash) Write(p) (n, err)
 modifies HS(h)
 ensures HS(h) == bcat(old(HS(h)), bytes(p))
 ensures err == nil && n == len(p)
 why hash.Hash: Write absorbs its argument and never fails
extern (h hash.Hash) Reset() ()
 modifies HS(h)
 ensures HS(h) == ""
 why hash.Hash: back to the state New left (for HMAC: keyed, nothing absorbed)
extern (h hash.Hash) Sum(b) (r)
 requires b == nil
 fresh r
 ensures HK(h) == 1 ==> bytes(r) == sha256(HS(h))
 ensures HK(h) == 2 ==> bytes(r) == hmac512(HKEY(h), HS(h))
 why hash.Hash: Sum gives the digest of what was absorbed and leaves the state
extern chacha20.NewUnauthenticatedCipher(key, nonce) (r, err)
 requires len(nonce) == 12
 fresh r
 ensures err == nil <==> len(key) == 32
 ensures err == nil ==> CK(r) == bytes(key) && CN(r) == bytes(nonce) && CP(r) == 0
 why x/crypto/chacha20
extern (c *chacha20.Cipher) XORKeyStream(dst, src) ()
 requires len(dst) >= len(src)
 modifies CP(c), bytes(dst)
 ensures CP(c) == old(CP(c)) + len(src)
 ensures bytes(dst) == bcat(bxor(ks(CK(c), CN(c), old(CP(c)), len(src)), old(bytes(src))), bsub(old(bytes(dst)), len(src), len(dst) - len(src)))
 why x/crypto/chacha20: XORs the next key stream bytes, for the first 2^38 bytes of a stream (then it panics) and buffers that overlap entirely or not at all
extern random.Bytes(b, s) ()
 modifies SO(s), bytes(b)
 ensures blen(SO(s)) == len(b)
 ensures bytes(b) == bxor(SO(s), old(bytes(b)))
 why kyber random.Bytes: XORs the stream into the buffer
extern (b binary.bigEndian) Uint32(x) (r)
 requires len(x) >= 4
 ensures r == b2i(bsub(bytes(x), 0, 4))
 why encoding/binary
extern (b binary.bigEndian) Uint64(x) (r)
 requires len(x) >= 8
 ensures r == b2i(bsub(bytes(x), 0, 8))
 why encoding/binary
extern (b binary.bigEndian) PutUint32(x, v) ()
 requires len(x) >= 4
 modifies bytes(x)
 ensures bytes(x) == bcat(i2b(v, 4), bsub(old(bytes(x)), 4, len(x) - 4))
 why encoding/binary
extern (b binary.bigEndian) PutUint64(x, v) ()
 requires len(x) >= 8
 modifies bytes(x)
 ensures bytes(x) == bcat(i2b(v, 8), bsub(old(bytes(x)), 8, len(x) - 8))
 why encoding/binary
