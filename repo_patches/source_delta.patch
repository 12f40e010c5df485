From 2edbf2428490e2b86552d7e97fd7ad4f030b42bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 01/22] fix: mkckks: decrypting a low level ciphertext
 truncated the decryptor for all later ones

---
 mkckks/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..9b14168 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,10 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// the decryption truncates its plaintext to the level of the ciphertext:
+	// give the pool its full level back afterwards
+	defer func(coeffs [][]uint64) { dec.ptxtPool.Value.Coeffs = coeffs }(dec.ptxtPool.Value.Coeffs)
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 73b3a0198260d631b08bdf171c389271e255b4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 02/22] fix: mkrlwe: decryption ignored the domain (NTT or not)
 of ciphertext and plaintext

---
 mkrlwe/decryptor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mkrlwe/decryptor.go b/mkrlwe/decryptor.go
index 0566c76..6e5ab31 100644
--- a/mkrlwe/decryptor.go
+++ b/mkrlwe/decryptor.go
@@ -63,4 +63,11 @@ func (decryptor *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *SecretKeySet,
 	}
 
 	ringQ.ReduceLvl(level, ctTmp.Value["0"], plaintext.Value)
+
+	// match the domain of the plaintext
+	if ctTmp.Value["0"].IsNTT && !plaintext.Value.IsNTT {
+		ringQ.InvNTTLvl(level, plaintext.Value, plaintext.Value)
+	} else if !ctTmp.Value["0"].IsNTT && plaintext.Value.IsNTT {
+		ringQ.NTTLvl(level, plaintext.Value, plaintext.Value)
+	}
 }
-- 
2.43.0


From 0cff15a7ec4536a15befe07433e694e3ec6ca26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 03/22] fix: mkbfv: decryption with a missing secret key
 returned garbage silently

---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From ada52983a27f2e8baacf5097532f98d55690ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 04/22] fix: mkbfv: decryption of a ciphertext in the NTT
 domain decoded its NTT coefficients

---
 mkbfv/decryptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index c649912..5f09554 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -53,6 +53,11 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		panic("Cannot Decrypt: there is a missing secretkey")
 	}
 
+	if ctTmp.Value["0"].IsNTT {
+		dec.params.RingQ().InvNTT(ctTmp.Value["0"], ctTmp.Value["0"])
+		ctTmp.Value["0"].IsNTT = false
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From c57b3caffc15502860a3baf7079dda76ad435cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 05/22] fix: mkrlwe: conjugating a ciphertext below the maximum
 level panicked

---
 mkrlwe/keyswitch.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..dd75714 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -297,6 +297,24 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 
 }
 
+// permuteLvl maps the coefficients x^i to x^(galEl*i), for the moduli up to the given level
+func permuteLvl(ringQ *ring.Ring, level int, polIn *ring.Poly, galEl uint64, polOut *ring.Poly) {
+
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
+
+	for i := uint64(0); i < uint64(ringQ.N); i++ {
+
+		indexRaw := i * galEl
+		index := indexRaw & mask
+		tmp := (indexRaw >> logN) & 1
+
+		for j, qi := range ringQ.Modulus[:level+1] {
+			polOut.Coeffs[j][index] = polIn.Coeffs[j][i]*(tmp^1) | (qi-polIn.Coeffs[j][i])*tmp
+		}
+	}
+}
+
 // Conjugate conjugate ctIn with ctOut with ConjugationKeySet and returns the result in ctOut.
 // Input ciphertext should be in NTT form
 func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctOut *Ciphertext) {
@@ -313,7 +331,7 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 
 	// permute ctIn and put it to ctOut
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		permuteLvl(ringQ, level, ctIn.Value[id], galEl, ctOut.Value[id])
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 21e42b053dd5259c9602aa45e09103c229e2a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 06/22] fix: mkckks: MultByConst with an imaginary part was
 wrong on coefficient domain ciphertexts

---
 mkckks/evaluator.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..3ae83f4 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -124,7 +124,19 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
 	// [{                  N/2                }{                N/2               }]
 	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// The multiplication by X^{N/2} is a coefficient wise operation only in the NTT domain.
 	ringQ := eval.params.RingQ()
+	toInvNTT := make([]string, 0)
+	values := make(map[string]*ring.Poly)
+	for u := range ct0.Value {
+		values[u] = ct0.Value[u]
+		if cImag != 0 && !ct0.Value[u].IsNTT {
+			values[u] = ctOut.Value[u]
+			ringQ.NTTLvl(level, ct0.Value[u], values[u])
+			toInvNTT = append(toInvNTT, u)
+		}
+	}
+
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
@@ -150,7 +162,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
 
 		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
+			p0tmp := values[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 
 			for j := 0; j < ringQ.N>>1; j = j + 8 {
@@ -175,7 +187,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 
 		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
+			p0tmp := values[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 			for j := ringQ.N >> 1; j < ringQ.N; j = j + 8 {
 
@@ -194,6 +206,10 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 	}
 
+	for _, u := range toInvNTT {
+		ringQ.InvNTTLvl(level, ctOut.Value[u], ctOut.Value[u])
+	}
+
 	ctOut.Scale = ct0.Scale * scale
 }
 
-- 
2.43.0


From ea37f6564c9e68f9fe24284516d4c41544f2dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 07/22] fix: mkckks: Rescale into another ciphertext left it
 empty when there was nothing to rescale

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3ae83f4..bf1a2ef 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -406,7 +406,11 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			for id := range ctIn.Value {
+				level := ctIn.Value[id].Level()
+				ring.CopyValuesLvl(level, ctIn.Value[id], ctOut.Value[id])
+				ctOut.Value[id].Coeffs = ctOut.Value[id].Coeffs[:level+1]
+			}
 		}
 	}
 
-- 
2.43.0


From 9a5a59ef6d459a7b58d7b6e1245b37f0d3e3a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 08/22] fix: mkckks: Rescale did not stop at level 0 and
 indexed the moduli out of range

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index bf1a2ef..9a8bc09 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -393,7 +393,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 3274e72d3d59e99c6f39771853f97c737c135e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 09/22] fix: mkrlwe: negative rotation indexes used or
 overwrote the CRS of the relinearization and conjugation keys

---
 mkrlwe/keygen.go |  8 +++-----
 mkrlwe/params.go | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..49312b6 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,15 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	rotidx = params.normalizeRotIdx(rotidx)
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index a4431a2..bfb8d28 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -74,8 +74,23 @@ func (params Parameters) Gamma() int {
 	return params.gamma
 }
 
+// normalizeRotIdx returns the rotation index in [0, N/2) equivalent to the given one
+func (params Parameters) normalizeRotIdx(rotidx int) int {
+	period := params.N() / 2
+	return ((rotidx % period) + period) % period
+}
+
+// AddCRS generates the CRS of the rotation by idx. The negative indexes of the CRS
+// map are not rotations: a negative rotation uses the CRS of its positive equivalent.
 func (params *Parameters) AddCRS(idx int) {
 
+	idx = params.normalizeRotIdx(idx)
+
+	// the rotation by zero needs no key, and CRS[0] is the one of the relinearization keys
+	if idx == 0 {
+		return
+	}
+
 	prng, err := utils.NewPRNG()
 	if err != nil {
 		panic(err)
-- 
2.43.0


From b68f6c2d9f2ae86047482c8eb88017a452b49498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 10/22] fix: mkrlwe: the rotation key of index zero shared its
 mask with the relinearization key

---
 mkrlwe/keygen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 49312b6..0a5beeb 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -201,6 +201,11 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	// adjust rotidx
 	rotidx = params.normalizeRotIdx(rotidx)
 
+	// CRS[0] already masks the secret key in the relinearization key
+	if rotidx == 0 {
+		panic("Cannot GenRotationKey: the rotation by zero needs no key")
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
-- 
2.43.0


From e4f013d0243280b88df9977936ddcab43a939719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 11/22] fix: mkrlwe: GenKeyPairSparse always dereferenced a nil
 secret key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 0a5beeb..76a3238 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 923ce606639b0aea88d75b1d8dfbd066b24147f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 12/22] fix: mkrlwe: key switching panicked when the number of
 P moduli is not a multiple of gamma

---
 mkrlwe/basis_extension.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..0c4a3c8 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -377,9 +377,11 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 
 	for lvlP := range ringP.Modulus[1:] {
 
-		P := ringP.Modulus[:lvlP+2]
+		// The decomposition always extends to the whole basis QP, whatever the size
+		// of its blocks: DecomposeAndSplit indexes it by gamma*alpha <= len(P).
+		P := ringP.Modulus
 
-		alpha := int(math.Ceil(float64(len(P)) / float64(gamma)))
+		alpha := int(math.Ceil(float64(lvlP+2) / float64(gamma)))
 		beta := int(math.Ceil(float64(len(Q)) / float64(alpha)))
 
 		xalpha := make([]int, beta)
-- 
2.43.0


From 9358fc88b04401f31cfdd8c58fc78dbcb3c8d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 13/22] fix: mkrlwe: the public key and the relinearization key
 shared their mask and revealed the secret key

---
 mkrlwe/keygen.go | 7 ++++---
 mkrlwe/params.go | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 76a3238..79d61f6 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -100,9 +100,10 @@ func (keygen *KeyGenerator) GenPublicKey(sk *SecretKey) (pk *PublicKey) {
 	ringQP.ExtendBasisSmallNormAndCenter(pk.Value[0].Q, levelP, nil, pk.Value[0].P)
 	ringQP.NTTLvl(levelQ, levelP, pk.Value[0], pk.Value[0])
 
-	//set a to CRS[0][0]
-	pk.Value[1].Q.Copy(keygen.params.CRS[0].Value[0].Q)
-	pk.Value[1].P.Copy(keygen.params.CRS[0].Value[0].P)
+	//set a to CRS[-5][0]: sharing a CRS with another key masked by sk, up to the
+	//Montgomery factor, would let both masks be cancelled and reveal sk
+	pk.Value[1].Q.Copy(keygen.params.CRS[-5].Value[0].Q)
+	pk.Value[1].P.Copy(keygen.params.CRS[-5].Value[0].P)
 
 	ringQP.MulCoeffsMontgomeryAndSubLvl(levelQ, levelP, sk.Value, pk.Value[1], pk.Value[0])
 	return pk
diff --git a/mkrlwe/params.go b/mkrlwe/params.go
index bfb8d28..706e968 100644
--- a/mkrlwe/params.go
+++ b/mkrlwe/params.go
@@ -38,6 +38,7 @@ func NewParameters(params rlwe.Parameters, gamma int) Parameters {
 		0, -1, //CRS for relin key
 		-2,     //CRS for conj key
 		-3, -4, //CRS for BFV relin key
+		-5, //CRS for public key
 	}
 
 	// CRS for rot keys
-- 
2.43.0


From 6b6a99527df901d4c6ef609696ecfaa33e22be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 14/22] fix: mkckks: Rescale into another ciphertext corrupted
 its input

---
 mkckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 9a8bc09..e04be82 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -401,7 +401,9 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	if nbRescales > 0 {
 		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			// the division overwrites the last limb of its input
+			ring.CopyValuesLvl(level, ctIn.Value[i], eval.polyQPool)
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, eval.polyQPool, eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
 	} else {
-- 
2.43.0


From fc871b6594a070f06da571b45574cec3ce2275dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 15/22] fix: mkrlwe: ModDownQPtoP divided by the wrong number
 of Q primes when levelQ and levelP differ

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 0c4a3c8..8194fb9 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From c0bdaa06a7636fa6d863043d79e21b4de093810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 16/22] fix: DropLevel refuses numbers of levels the ciphertext
 does not have

---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index e04be82..5381d14 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -106,6 +106,10 @@ func (eval *Evaluator) DropLevelNew(ct0 *Ciphertext, levels int) (ctOut *Ciphert
 func (eval *Evaluator) DropLevel(ct0 *Ciphertext, levels int) {
 	level := ct0.Level()
 
+	if levels < 0 || levels > level {
+		panic("cannot DropLevel: levels must be between 0 and the level of the ciphertext")
+	}
+
 	for id := range ct0.Value {
 		ct0.Value[id].Coeffs = ct0.Value[id].Coeffs[:level+1-levels]
 	}
-- 
2.43.0


From a9cf7b56fd0e6eb982180d19517ce0ecd42d9ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 17/22] fix: deleting the last rotation key of an owner removes
 the owner's empty entry

---
 mkrlwe/keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 8e5b5b9..20ccffd 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -145,6 +145,9 @@ func (rkSet *RotationKeySet) AddRotationKey(rk *RotationKey) {
 // DelRotationKeys delete rotation keys of given id from RotationKeysSet
 func (rkSet *RotationKeySet) DelRotationKey(id string, rotidx uint) {
 	delete(rkSet.Value[id], rotidx)
+	if len(rkSet.Value[id]) == 0 {
+		delete(rkSet.Value, id)
+	}
 }
 
 // GetRotationKeys returns a rotation keys of given id from RotationKeysSet
-- 
2.43.0


From 307fba13790a5afdde1fb7f904b9b3c73dae2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 18/22] fix: deleting a relinearization key frees the buffers
 made for it

---
 mkbfv/keys.go  | 10 ++++++++++
 mkrlwe/keys.go |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/mkbfv/keys.go b/mkbfv/keys.go
index e0a2452..d2a8a83 100644
--- a/mkbfv/keys.go
+++ b/mkbfv/keys.go
@@ -68,7 +68,17 @@ func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationK
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
 func (rlkSet *RelinearizationKeySet) DelRelinearizationKey(id string) {
+	if _, in := rlkSet.Value[id]; !in {
+		return
+	}
+
 	delete(rlkSet.Value, id)
+	delete(rlkSet.PolyRPool1, id)
+	delete(rlkSet.PolyRPool2, id)
+	for i := range rlkSet.HoistPool1 {
+		delete(rlkSet.HoistPool1[i].Value, id)
+		delete(rlkSet.HoistPool2[i].Value, id)
+	}
 }
 
 // GetRelinearizationKey returns a publickey of given id from RelinearizationKeySet
diff --git a/mkrlwe/keys.go b/mkrlwe/keys.go
index 20ccffd..bc7ab50 100644
--- a/mkrlwe/keys.go
+++ b/mkrlwe/keys.go
@@ -186,7 +186,13 @@ func (rlkSet *RelinearizationKeySet) AddRelinearizationKey(rlk *RelinearizationK
 
 // DelRelinearizationKey delete publickey of given id from SecretKeySet
 func (rlkSet *RelinearizationKeySet) DelRelinearizationKey(id string) {
+	if _, in := rlkSet.Value[id]; !in {
+		return
+	}
+
 	delete(rlkSet.Value, id)
+	delete(rlkSet.HoistPool[0].Value, id)
+	delete(rlkSet.HoistPool[1].Value, id)
 }
 
 // GetRelinearizationKey returns a publickey of given id from RelinearizationKeySet
-- 
2.43.0


From 3a1a743e8eba3cc6a03bbb1f72a53ba732e1c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 19/22] fix: the evaluator's pool keeps no components of
 parties that left

---
 mkckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 5381d14..dac6e64 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -225,6 +225,12 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 	idset1 := c1.IDSet()
 	idset := idset0.Union(idset1)
 
+	// keep in the pool the components of these owners only
+	for id := range eval.ctxtPool.IDSet().Value {
+		if !idset.Has(id) {
+			delete(eval.ctxtPool.Value, id)
+		}
+	}
 	eval.ctxtPool.PadCiphertext(idset)
 
 	level := utils.MinInt(utils.MinInt(c0.Level(), c1.Level()), ctOut.Level())
-- 
2.43.0


From 55707d18a1b1e5e414140edcb9f2996cb7e9a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:18 +0000
Subject: [PATCH 20/22] fix: multiplying by a constant of 2^63 or more took it
 for a fraction

The test whether a constant is an integer went through int64 and so added
a scaling by the last prime for constants of 2^63 and more. Adding
ciphertexts whose scales differ by such a factor ignored that scaling and
gave a wrong sum.
---
 mkckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index dac6e64..39faa92 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -47,8 +47,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -56,8 +55,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -69,8 +67,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From 58cd70e9cecdb731c67028bb2d5b0502aae1903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:42 +0000
Subject: [PATCH 21/22] fix: adding ciphertexts whose scales differ by almost
 an integer factor was wrong

The factor was rounded down, so a ratio of 1.9999 (what a rescaled and an
unrescaled ciphertext may have) left one operand at half of its value and
larger ratios lost one part in the ratio.
---
 mkckks/evaluator.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 39faa92..1aad0ee 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -245,15 +245,15 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 	// and scales properly the element before the evaluation.
 	if ctOut == c0 {
 
-		if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
-		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		} else if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -268,15 +268,15 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 	} else if ctOut == c1 {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -291,19 +291,19 @@ func (eval *Evaluator) evaluateInPlace(c0, c1, ctOut *Ciphertext, evaluate func(
 
 	} else {
 
-		if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
+		if c1Scale > c0Scale && math.Round(c1Scale/c0Scale) > 1 {
 
 			tmp0 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Round(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
-		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
+		} else if c0Scale > c1Scale && math.Round(c0Scale/c1Scale) > 1 {
 
 			tmp1 = eval.ctxtPool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Round(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
-- 
2.43.0


From 7deb5aa46db499b353dca0cd6dc09bb0e8aba22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:11 +0000
Subject: [PATCH 22/22] fix: reduce rotation indexes with a remainder instead
 of a loop

The evaluators and key switchers added or subtracted N/2 until the index was
in range, so that a rotation by an index such as 1<<62 never returned.
The key switcher also accepts indexes above N/2 like the evaluators.
---
 mkbfv/evaluator.go          |  7 ++-----
 mkckks/evaluator.go         | 14 ++++----------
 mkrlwe/keyswitch.go         |  4 +---
 mkrlwe/keyswitch_hoisted.go |  4 +---
 4 files changed, 8 insertions(+), 21 deletions(-)

diff --git a/mkbfv/evaluator.go b/mkbfv/evaluator.go
index 155ea71..79f8924 100644
--- a/mkbfv/evaluator.go
+++ b/mkbfv/evaluator.go
@@ -162,11 +162,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 1aad0ee..d19a7fb 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -522,11 +522,8 @@ func (eval *Evaluator) RotateNew(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.Rota
 func (eval *Evaluator) rotate(ct0 *Ciphertext, rotidx int, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
@@ -622,11 +619,8 @@ func (eval *Evaluator) RotateHoistedNew(ct0 *Ciphertext, rotidx int, ct0Hoisted
 func (eval *Evaluator) rotateHoisted(ct0 *Ciphertext, rotidx int, ct0Hoisted *mkrlwe.HoistedCiphertext, rkSet *mkrlwe.RotationKeySet, ctOut *Ciphertext) {
 
 	// normalize rotidx
-	for rotidx >= eval.params.N()/2 {
-		rotidx -= eval.params.N() / 2
-	}
-
-	for rotidx < 0 {
+	rotidx %= eval.params.N() / 2
+	if rotidx < 0 {
 		rotidx += eval.params.N() / 2
 	}
 
diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index dd75714..6bf24a2 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -244,9 +244,7 @@ func (ks *KeySwitcher) Rotate(ctIn *Ciphertext, rotidx int, rkSet *RotationKeySe
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
+	rotidx = params.normalizeRotIdx(rotidx)
 
 	// c0 <- c0 + IP(c_i, rk_i)
 
diff --git a/mkrlwe/keyswitch_hoisted.go b/mkrlwe/keyswitch_hoisted.go
index e16a2bf..28b61b2 100644
--- a/mkrlwe/keyswitch_hoisted.go
+++ b/mkrlwe/keyswitch_hoisted.go
@@ -193,9 +193,7 @@ func (ks *KeySwitcher) RotateHoisted(ctIn *Ciphertext, rotidx int, ctInHoisted *
 	}
 
 	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
+	rotidx = params.normalizeRotIdx(rotidx)
 
 	// c0 <- c0 + Ext(c_i, rk_i)
 
-- 
2.43.0

