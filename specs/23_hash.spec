// ---- hashing to scalars and field elements: 48 bytes of the expansion each ----
def HSC(m, d, n, i) = redq(b2i(bsub(XMD(m, d, 48 * n), 48 * i, 48)))
def HFE(m, d, n, i) = redp(b2i(bsub(XMD(m, d, 48 * n), 48 * i, 48)))
func curve.HashToScalar(count, curve, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 requires count >= 0
 fresh r
 ensures err == nil <==> count <= 170
 ensures err == nil ==> len(r) == count
 ensures err == nil ==> forall i in [0, count) {r[i]} :: fresh(r[i]) && V(r[i]) == HSC(bytes(input), bytes(domainSeparator), count, i)
 ensures err == nil ==> forall i in [0, count) {r[i]} :: forall j in [0, i) {r[j]} :: r[i] != r[j]
 loop 1
  invariant 0 <= i && i <= count
  invariant len(out) == i
  invariant forall k in [0, i) {out[k]} :: fresh(out[k]) && V(out[k]) == HSC(bytes(input), bytes(domainSeparator), count, k)
  invariant forall k in [0, i) {out[k]} :: forall j in [0, k) {out[j]} :: out[k] != out[j]
 end
func curve.HashToField(count, curve, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 requires count >= 0
 fresh r
 ensures err == nil <==> count <= 170
 ensures err == nil ==> len(r) == count
 ensures err == nil ==> forall i in [0, count) {r[i]} :: fresh(r[i]) && R(r[i]) == HFE(bytes(input), bytes(domainSeparator), count, i)
 ensures err == nil ==> forall i in [0, count) {r[i]} :: forall j in [0, i) {r[j]} :: r[i] != r[j]
 loop 1
  invariant 0 <= i && i <= count
  invariant len(out) == i
  invariant forall k in [0, i) {out[k]} :: fresh(out[k]) && R(out[k]) == HFE(bytes(input), bytes(domainSeparator), count, k)
  invariant forall k in [0, i) {out[k]} :: forall j in [0, k) {out[j]} :: out[k] != out[j]
 end
func (s curve.scalar) HashToScalar(curve, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 fresh r
 ensures err == nil
 ensures V(r) == HSC(bytes(input), bytes(domainSeparator), 1, 0)
func (s curve.scalar) HashToSeveralScalar(curve, count, input, domainSeparator) (r, err)
 prop C06
 requires curve == 1
 requires count >= 0
 fresh r
 ensures err == nil <==> count <= 170
 ensures err == nil ==> len(r) == count
 ensures err == nil ==> forall i in [0, count) {r[i]} :: fresh(r[i]) && V(r[i]) == HSC(bytes(input), bytes(domainSeparator), count, i)
 ensures err == nil ==> forall i in [0, count) {r[i]} :: forall j in [0, i) {r[j]} :: r[i] != r[j]
