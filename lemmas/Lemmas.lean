/- Number theory that turns the contracts of the public-key functions (ocvc/o_bn.py, o_pk.py) into properties C19, C20, C21.
   `%` and `/` on natural numbers are Z.rem and Z.div on non-negative numbers. -/
import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Data.Nat.Size

/-- Z.powm: the contract of Bn.mod_power -/
def powm (a e n : ℕ) : ℕ := a ^ e % n

-- facts on gcd used while verifying key generation
theorem coprime_mul (e a b : ℕ) : Nat.gcd e (a * b) = 1 ↔ Nat.gcd e a = 1 ∧ Nat.gcd e b = 1 := Nat.coprime_mul_iff_right
theorem coprime_primes {p q : ℕ} (hp : p.Prime) (hq : q.Prime) (h : p ≠ q) : Nat.gcd p q = 1 := (Nat.coprime_primes hp hq).2 h
theorem coprime_lcm (n a b : ℕ) (h : Nat.gcd n (a * b) = 1) : Nat.gcd (Nat.lcm a b) n = 1 := (Nat.Coprime.coprime_dvd_right (Nat.lcm_dvd_mul a b) h).symm
theorem lcm_le (a b : ℕ) (ha : 1 ≤ a) (hb : 1 ≤ b) : 1 ≤ Nat.lcm a b ∧ Nat.lcm a b ≤ a * b :=
  ⟨Nat.lcm_pos ha hb, Nat.le_of_dvd (Nat.mul_pos ha hb) (Nat.lcm_dvd_mul a b)⟩
theorem size_mul (a b : ℕ) : Nat.size (a * b) ≤ Nat.size a + Nat.size b := by
  rw [Nat.size_le, pow_add]
  exact Nat.mul_lt_mul'' (Nat.lt_size_self a) (Nat.lt_size_self b)
theorem size_le {a b : ℕ} (h : a ≤ b) : Nat.size a ≤ Nat.size b := Nat.size_le_size h
theorem lt_of_size_lt {a b : ℕ} (h : Nat.size a < Nat.size b) : a < b := by
  by_contra hc
  exact absurd (Nat.size_le_size (not_lt.1 hc)) (not_le.2 h)

/-- Diffie-Hellman: both sides compute the same number (C20) -/
theorem dh_agree (g a b p : ℕ) : powm (powm g a p) b p = powm (powm g b p) a p := by
  unfold powm
  rw [← Nat.pow_mod, ← Nat.pow_mod, ← pow_mul, ← pow_mul, mul_comm]

theorem pow_one_mod {p k : ℕ} (hp : p.Prime) (hk : k ≡ 1 [MOD (p - 1)]) (hk1 : 1 ≤ k) (x : ℕ) : x ^ k ≡ x [MOD p] := by
  have := Fact.mk hp
  rw [← ZMod.natCast_eq_natCast_iff]
  push_cast
  by_cases hx : (x : ZMod p) = 0
  · rw [hx, zero_pow (by omega)]
  · obtain ⟨t, ht⟩ := (Nat.modEq_iff_dvd' hk1).1 hk.symm
    have : k = (p - 1) * t + 1 := by omega
    rw [this, pow_succ, pow_mul, ZMod.pow_card_sub_one_eq_one hx, one_pow, one_mul]

theorem prod_pos {p q e d : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q)
    (h1 : e * d ≡ 1 [MOD (p - 1)]) (h2 : e * d ≡ 1 [MOD (q - 1)]) : 1 ≤ e * d := by
  by_contra h
  have h0 : e * d = 0 := by omega
  rw [h0] at h1 h2
  have a1 : p - 1 ∣ 1 := (Nat.modEq_zero_iff_dvd).1 h1.symm
  have a2 : q - 1 ∣ 1 := (Nat.modEq_zero_iff_dvd).1 h2.symm
  have b1 := Nat.dvd_one.1 a1
  have b2 := Nat.dvd_one.1 a2
  have := hp.two_le
  have := hq.two_le
  omega

theorem inv_mod_factors {p q e d : ℕ} (h : e * d ≡ 1 [MOD ((p - 1) * (q - 1))]) :
    e * d ≡ 1 [MOD (p - 1)] ∧ e * d ≡ 1 [MOD (q - 1)] := ⟨h.of_mul_right _, h.of_mul_left _⟩
theorem inv_mod_factors_lcm {p q e d : ℕ} (h : e * d ≡ 1 [MOD (Nat.lcm (p - 1) (q - 1))]) :
    e * d ≡ 1 [MOD (p - 1)] ∧ e * d ≡ 1 [MOD (q - 1)] := ⟨h.of_dvd (Nat.dvd_lcm_left _ _), h.of_dvd (Nat.dvd_lcm_right _ _)⟩

/-- RSA (C19): the power by d inverts the power by e; with e and d exchanged, unwrapping inverts signing -/
theorem rsa {p q e d M : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q)
    (h1 : e * d ≡ 1 [MOD (p - 1)]) (h2 : e * d ≡ 1 [MOD (q - 1)]) (hM : M < p * q) :
    powm (powm M e (p * q)) d (p * q) = M ∧ powm (powm M d (p * q)) e (p * q) = M := by
  have hk := prod_pos hp hq hpq h1 h2
  have hc : Nat.Coprime p q := (Nat.coprime_primes hp hq).2 hpq
  have key : M ^ (e * d) % (p * q) = M := by
    have := (Nat.modEq_and_modEq_iff_modEq_mul hc).1 ⟨pow_one_mod hp h1 hk M, pow_one_mod hq h2 hk M⟩
    rw [Nat.ModEq, Nat.mod_eq_of_lt hM] at this
    exact this
  unfold powm
  refine ⟨?_, ?_⟩
  · rw [← Nat.pow_mod, ← pow_mul]; exact key
  · rw [← Nat.pow_mod, ← pow_mul, mul_comm]; exact key

theorem pow_red {p e d : ℕ} (hp : p.Prime) (h2 : 2 < p) (h1 : e * d ≡ 1 [MOD (p - 1)]) (c : ℕ) : c ^ (d % (p - 1)) ≡ c ^ d [MOD p] := by
  have := Fact.mk hp
  have hd : 1 ≤ d % (p - 1) := by
    by_contra h
    have h0 : d % (p - 1) = 0 := by omega
    have : e * d ≡ 0 [MOD (p - 1)] := (Nat.modEq_zero_iff_dvd).2 (Dvd.dvd.mul_left (Nat.dvd_of_mod_eq_zero h0) e)
    have a := (Nat.modEq_zero_iff_dvd).1 (h1.symm.trans this)
    have := Nat.dvd_one.1 a
    omega
  have hdd : 1 ≤ d := by
    have := Nat.mod_le d (p - 1)
    omega
  rw [← ZMod.natCast_eq_natCast_iff]
  push_cast
  by_cases hx : (c : ZMod p) = 0
  · rw [hx, zero_pow (by omega), zero_pow (by omega)]
  · conv_rhs => rw [← Nat.div_add_mod d (p - 1), pow_add, pow_mul, ZMod.pow_card_sub_one_eq_one hx, one_pow, one_mul]

/-- RSA with the Chinese remainder theorem (C19): the number that Bn.mod_power_CRT is proved to return equals the plain power.
    No assumption on which of p and q is larger. -/
theorem rsa_crt {p q e d r c : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q) (p2 : 2 < p) (q2 : 2 < q)
    (h1 : e * d ≡ 1 [MOD (p - 1)]) (h2 : e * d ≡ 1 [MOD (q - 1)]) (hr : r < p * q)
    (rp : r ≡ powm c (d % (p - 1)) p [MOD p]) (rq : r ≡ powm c (d % (q - 1)) q [MOD q]) : r = powm c d (p * q) := by
  have hc : Nat.Coprime p q := (Nat.coprime_primes hp hq).2 hpq
  have a := (rp.trans (Nat.mod_modEq _ _)).trans (pow_red hp p2 h1 c)
  have b := (rq.trans (Nat.mod_modEq _ _)).trans (pow_red hq q2 h2 c)
  have := (Nat.modEq_and_modEq_iff_modEq_mul hc).1 ⟨a, b⟩
  rw [Nat.ModEq, Nat.mod_eq_of_lt hr] at this
  exact this

-- Paillier
theorem one_add_pow (n k : ℕ) : (1 + n) ^ k ≡ 1 + k * n [MOD n * n] := by
  induction k with
  | zero => simp; rfl
  | succ k ih =>
    rw [pow_succ]
    refine (ih.mul_right _).trans ?_
    have : (1 + k * n) * (1 + n) = 1 + (k + 1) * n + k * (n * n) := by ring
    rw [this]
    unfold Nat.ModEq
    simp [Nat.add_mul_mod_self_right]

theorem pow_n_of_one {n x : ℕ} (h : x ≡ 1 [MOD n]) : x ^ n ≡ 1 [MOD n * n] := by
  rcases Nat.eq_zero_or_pos x with h0 | h0
  · subst h0
    have := Nat.dvd_one.1 ((Nat.modEq_zero_iff_dvd).1 h.symm)
    subst this
    exact Nat.modEq_one
  · obtain ⟨t, ht⟩ := (Nat.modEq_iff_dvd' h0).1 h.symm
    have hx : x = 1 + n * t := by omega
    subst hx
    have a : (1 + n * t) ^ n ≡ 1 + n * (n * t) [MOD (n * t) * (n * t)] := one_add_pow (n * t) n
    have a' : (1 + n * t) ^ n ≡ 1 + n * (n * t) [MOD n * n] := a.of_dvd ⟨t * t, by ring⟩
    refine a'.trans ?_
    have : 1 + n * (n * t) = 1 + t * (n * n) := by ring
    rw [this]
    unfold Nat.ModEq
    simp [Nat.add_mul_mod_self_right]

theorem carmichael {p q r : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q) (hr : Nat.gcd r (p * q) = 1) :
    r ^ Nat.lcm (p - 1) (q - 1) ≡ 1 [MOD p * q] := by
  have hc : Nat.Coprime p q := (Nat.coprime_primes hp hq).2 hpq
  have hr' : Nat.Coprime r (p * q) := hr
  have rp : Nat.Coprime r p := Nat.Coprime.coprime_mul_right_right hr'
  have rq : Nat.Coprime r q := Nat.Coprime.coprime_mul_left_right hr'
  have f : ∀ {s : ℕ}, s.Prime → Nat.Coprime r s → (s - 1) ∣ Nat.lcm (p - 1) (q - 1) → r ^ Nat.lcm (p - 1) (q - 1) ≡ 1 [MOD s] := by
    intro s hs hrs ⟨t, ht⟩
    have := (Nat.ModEq.pow_totient hrs).pow t
    rw [Nat.totient_prime hs, ← pow_mul, ← ht, one_pow] at this
    exact this
  exact (Nat.modEq_and_modEq_iff_modEq_mul hc).1 ⟨f hp rp (Nat.dvd_lcm_left _ _), f hq rq (Nat.dvd_lcm_right _ _)⟩

/-- the number that Paillier.decrypt is proved to return -/
def pdec (n lam mu c : ℕ) : ℕ := (powm c lam (n * n) - 1) / n * mu % n

/-- any number congruent to g^m s^n, s coprime to n, decrypts to m mod n -/
theorem paillier_core {p q mu c m s : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q) (hs : Nat.gcd s (p * q) = 1)
    (hmu : Nat.lcm (p - 1) (q - 1) * mu ≡ 1 [MOD p * q])
    (hc : c ≡ (p * q + 1) ^ m * s ^ (p * q) [MOD (p * q) * (p * q)]) :
    pdec (p * q) (Nat.lcm (p - 1) (q - 1)) mu c = m % (p * q) := by
  set n := p * q with hn
  set lam := Nat.lcm (p - 1) (q - 1) with hl
  have n1 : 1 < n := by
    have := hp.two_le
    have := hq.two_le
    nlinarith
  have npos : 0 < n := by omega
  have e1 : c ^ lam ≡ 1 + (m * lam) * n [MOD n * n] := by
    have h := hc.pow lam
    have : ((n + 1) ^ m * s ^ n) ^ lam = (1 + n) ^ (m * lam) * (s ^ lam) ^ n := by
      rw [mul_pow, ← pow_mul, ← pow_mul, ← pow_mul, mul_comm n lam, add_comm]
    rw [this] at h
    have k := (one_add_pow n (m * lam)).mul (pow_n_of_one (carmichael hp hq hpq hs))
    rw [mul_one] at k
    exact h.trans k
  have e2 : powm c lam (n * n) = 1 + (m * lam % n) * n := by
    have lt : 1 + (m * lam % n) * n < n * n := by
      have := Nat.mod_lt (m * lam) npos
      have h2 : (m * lam % n) * n ≤ (n - 1) * n := Nat.mul_le_mul_right _ (by omega)
      have h3 : (n - 1) * n + n = n * n := by
        have : (n - 1) * n + 1 * n = (n - 1 + 1) * n := by ring
        rw [one_mul] at this
        rw [this, Nat.sub_add_cancel (by omega)]
      omega
    have e3 : 1 + (m * lam) * n ≡ 1 + (m * lam % n) * n [MOD n * n] := by
      have a : (m * lam) * n = (m * lam % n) * n + (m * lam / n) * (n * n) := by
        conv_lhs => rw [← Nat.div_add_mod (m * lam) n]
        ring
      rw [a, ← add_assoc]
      unfold Nat.ModEq
      simp [Nat.add_mul_mod_self_right]
    have := e1.trans e3
    rw [Nat.ModEq, Nat.mod_eq_of_lt lt] at this
    exact this
  unfold pdec
  rw [e2, Nat.add_sub_cancel_left, Nat.mul_div_cancel _ npos]
  have : (m * lam % n) * mu ≡ m [MOD n] := by
    have a : (m * lam % n) * mu ≡ m * lam * mu [MOD n] := (Nat.mod_modEq _ _).mul_right _
    have b : m * lam * mu ≡ m * 1 [MOD n] := by
      rw [mul_assoc]
      exact hmu.mul_left m
    rw [mul_one] at b
    exact a.trans b
  exact this

/-- the number that Paillier.encrypt is proved to return -/
def penc (n g m r : ℕ) : ℕ := powm g m (n * n) * powm r n (n * n) % (n * n)

theorem penc_mod (n g m r : ℕ) : penc n g m r ≡ g ^ m * r ^ n [MOD n * n] := by
  unfold penc powm
  exact (Nat.mod_modEq _ _).trans ((Nat.mod_modEq _ _).mul (Nat.mod_modEq _ _))

/-- Paillier (C21): decryption returns what was encrypted -/
theorem paillier {p q mu m r : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q) (hr : Nat.gcd r (p * q) = 1)
    (hmu : Nat.lcm (p - 1) (q - 1) * mu ≡ 1 [MOD p * q]) (hm : m < p * q) :
    pdec (p * q) (Nat.lcm (p - 1) (q - 1)) mu (penc (p * q) (p * q + 1) m r) = m := by
  rw [paillier_core hp hq hpq hr hmu (penc_mod _ _ _ _), Nat.mod_eq_of_lt hm]

/-- Paillier (C21): the sum of ciphertexts decrypts to the sum of the messages modulo n -/
theorem paillier_add {p q mu m1 m2 r1 r2 : ℕ} (hp : p.Prime) (hq : q.Prime) (hpq : p ≠ q)
    (hr1 : Nat.gcd r1 (p * q) = 1) (hr2 : Nat.gcd r2 (p * q) = 1)
    (hmu : Nat.lcm (p - 1) (q - 1) * mu ≡ 1 [MOD p * q]) :
    pdec (p * q) (Nat.lcm (p - 1) (q - 1)) mu
      (penc (p * q) (p * q + 1) m1 r1 * penc (p * q) (p * q + 1) m2 r2 % ((p * q) * (p * q))) = (m1 + m2) % (p * q) := by
  have hs : Nat.gcd (r1 * r2) (p * q) = 1 := Nat.Coprime.mul_left hr1 hr2
  refine paillier_core hp hq hpq hs hmu ?_
  refine (Nat.mod_modEq _ _).trans (((penc_mod _ _ _ _).mul (penc_mod _ _ _ _)).trans ?_)
  rw [pow_add, mul_pow]
  have h : ∀ a b c d : ℕ, a * b * (c * d) = a * c * (b * d) := by intros; ring
  rw [h ((p * q + 1) ^ m1)]

#print axioms coprime_mul
#print axioms coprime_primes
#print axioms coprime_lcm
#print axioms lcm_le
#print axioms size_mul
#print axioms size_le
#print axioms lt_of_size_lt
#print axioms inv_mod_factors
#print axioms inv_mod_factors_lcm
#print axioms rsa
#print axioms rsa_crt
#print axioms dh_agree
#print axioms paillier
#print axioms paillier_add
