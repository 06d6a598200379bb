func common.ReverseBytes(inBytes) (r)
 prop C03
 fresh r
 ensures len(r) == len(inBytes)
 ensures bytes(r) == brev(bytes(inBytes))
 loop 1
  invariant j == len(inBytes) - 1 - it && it <= len(inBytes)
  invariant forall k in [0, it) {bat(bytes(outBytes), k)} :: bat(bytes(outBytes), k) == bat(bytes(inBytes), len(inBytes) - 1 - k)
 end
