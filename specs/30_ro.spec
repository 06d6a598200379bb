// ---- the random oracle: a map from names to typed values, encoded in name order ----
ghost RM (Array Int (Array Bytes Bytes))
def RI(r) = r.inputs != nil && dom(r.inputs) == rodom(RM(r)) && (forall k: bytes {mhas(r.inputs, k)} :: mhas(r.inputs, k) ==> blen(k) <= 255 && bytes(mget(r.inputs, k)) == sel(RM(r), k))
// type byte, 4-byte length, value
def ROV(t, x) = bcat(b1(t), bcat(i2b(blen(x), 4), x))
def RODS(r) = bcat(r.domainSeparator, "-secp256k1")
func ro.NewRandomOracle(domainSeparator) (r)
 prop C07
 fresh r
 ensures fresh(r.inputs)
 ensures r.domainSeparator == domainSeparator
 set RM(r) := romt()
 hensures RI(r)
func (r *ro.RandomOracle) AddInput(name, input, ty) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> blen(sel(old(RM(r)), name)) == 0 && 1 <= blen(name) && blen(name) <= 255 && len(input) <= 4294967295
 set RM(r) := if(err == nil, store(old(RM(r)), name, ROV(ty, bytes(input))), old(RM(r)))
func (r *ro.RandomOracle) formRoInput() (in, err)
 prop C07
 hidden RI(r)
 fresh in
 ensures err == nil <==> roready(RM(r))
 ensures err == nil ==> bytes(in) == roenc(RM(r))
 scan 1
  use rocat_n(RM(r), it)
  invariant input == nil || fresh(input)
  invariant bytes(input) == rocat(RM(r), it)
 end
def ADD(r, n, t, x, err) = RM(r) == if(err == nil, store(old(RM(r)), n, ROV(t, x)), old(RM(r)))
def CANADD(r, n, x) = blen(sel(old(RM(r)), n)) == 0 && 1 <= blen(n) && blen(n) <= 255 && blen(x) <= 4294967295
func (r *ro.RandomOracle) AddPoint(name, pt) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> CANADD(r, name, "")
 ensures ADD(r, name, 3, bcat(b1(1), enc(P(pt))), err)
func (r *ro.RandomOracle) AddScalar(name, s) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> CANADD(r, name, "")
 ensures ADD(r, name, 4, bcat(b1(1), senc(V(s))), err)
func (r *ro.RandomOracle) AddBytesString(name, v) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> CANADD(r, name, bytes(v))
 ensures ADD(r, name, 1, bytes(v), err)
func (r *ro.RandomOracle) AddUint64(name, i) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> CANADD(r, name, "")
 ensures ADD(r, name, 2, i2b(i, 8), err)
func (r *ro.RandomOracle) AddUint32(name, i) (err)
 prop C07
 hidden RI(r)
 modifies RM(r), r.inputSize, mapof(r.inputs)
 ensures err == nil <==> CANADD(r, name, "")
 ensures ADD(r, name, 2, i2b(i, 8), err)
func (r *ro.RandomOracle) OutputScalars(curveType, cnt) (s, err)
 prop C07
 hidden RI(r)
 requires curveType == 1
 requires cnt >= 0
 fresh s
 ensures err == nil <==> roready(RM(r)) && cnt <= 170
 ensures err == nil ==> len(s) == cnt
 ensures err == nil ==> forall i in [0, cnt) {s[i]} :: fresh(s[i]) && V(s[i]) == HSC(roenc(RM(r)), RODS(r), cnt, i)
 ensures err == nil ==> forall i in [0, cnt) {s[i]} :: forall j in [0, i) {s[j]} :: s[i] != s[j]
func (r *ro.RandomOracle) OutputScalar(curveType) (s, err)
 prop C07
 hidden RI(r)
 requires curveType == 1
 fresh s
 ensures err == nil <==> roready(RM(r))
 ensures err == nil ==> V(s) == HSC(roenc(RM(r)), RODS(r), 1, 0)
func (r *ro.RandomOracle) OutputByteString(length) (b, err)
 prop C07
 hidden RI(r)
 requires length >= 0
 fresh b
 ensures err == nil <==> roready(RM(r)) && length <= 8160
 ensures err == nil ==> bytes(b) == XMD(roenc(RM(r)), r.domainSeparator, length)
func (r *ro.RandomOracle) OutputPoint(curveType) (p, err)
 prop C07
 hidden RI(r)
 requires curveType == 1
 fresh p
 ensures err == nil <==> roready(RM(r))
 ensures err == nil ==> P(p) == HPT(roenc(RM(r)), RODS(r))
