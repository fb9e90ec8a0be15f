/- Composition lemmas for hashing (properties C01, C02, C03, C13, C15): from the contracts of init, update, final of one call to
   any history of calls, and from the contracts of the BLAKE3 functions (cvc/u_blake3.py) to the hash of the whole tree. -/
import Mathlib.Combinatorics.Colex
import Mathlib.Data.Nat.BitIndices
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Positivity

/-! ### histories -/

/-- an update contract that extends the absorbed message carries any sequence of calls to the message they spell -/
theorem history {σ α : Type*} (I : List α → σ → Prop) (upd : σ → List α → σ) (s : σ) (m : List α) (h0 : I m s)
    (h : ∀ s m x, I m s → I (m ++ x) (upd s x)) : ∀ cs : List (List α), I (m ++ cs.flatten) (cs.foldl upd s)
  | [] => by simpa using h0
  | c :: cs => by
    have := history I upd (upd s c) (m ++ c) (h s m c h0) h cs
    simpa [List.append_assoc] using this

/-- chunk independence (C03): when the final contract makes the result a function of the absorbed message,
    two histories that spell the same message give the same result -/
theorem chunk_independence {σ α β : Type*} (I : List α → σ → Prop) (upd : σ → List α → σ) (fin : σ → β) (H : List α → β) (s : σ)
    (h0 : I [] s) (h : ∀ s m x, I m s → I (m ++ x) (upd s x)) (hf : ∀ s m, I m s → fin s = H m)
    (cs ds : List (List α)) (e : cs.flatten = ds.flatten) :
    fin (cs.foldl upd s) = H cs.flatten ∧ fin (cs.foldl upd s) = fin (ds.foldl upd s) := by
  have a := hf _ _ (history I upd s [] h0 h cs)
  have b := hf _ _ (history I upd s [] h0 h ds)
  simp only [List.nil_append] at a b
  exact ⟨a, by rw [a, b, e]⟩

/-! ### the stack of BLAKE3: sizes of the complete subtrees, top first -/

/-- the merged stack for S chunks: the powers of two of S, smallest on top -/
def canon (S : ℕ) : List ℕ := S.bitIndices.map (2 ^ ·)
/-- number of one bits -/
def popcount (S : ℕ) : ℕ := S.bitIndices.length

/-- the stacks that calls of push and merge, as update is proved to make them, can produce: sizes, chunks covered, merged? -/
inductive Reach : List ℕ → ℕ → Bool → Prop
  | init : Reach [] 0 true
  | merge {l S b} : Reach l S b → Reach (canon S) S true
  | push {l S b} (t : ℕ) : Reach l S b → 2 ^ t ∣ S → Reach (2 ^ t :: canon S) (S + 2 ^ t) false

/-- `lsplit` of cvc/u_blake3.py: a left subtree of w chunks and a right one of r chunks form one tree -/
def lsplit (w r : ℕ) : Prop := (∃ k, w = 2 ^ k) ∧ 0 < r ∧ r ≤ w

/-- j merges of the two top entries, each of them joining the halves of one tree, lead from l to l' -/
inductive Merges : ℕ → List ℕ → List ℕ → Prop
  | none {l} : Merges 0 l l
  | step {j x y l l'} : lsplit y x → Merges j ((x + y) :: l) l' → Merges (j + 1) (x :: y :: l) l'

theorem canon_sum (S : ℕ) : (canon S).sum = S := Nat.sum_map_two_pow_bitIndices S

theorem canon_shift (t q : ℕ) : canon (2 ^ t * q) = (canon q).map (2 ^ t * ·) := by
  unfold canon
  rw [Nat.bitIndices_two_pow_mul, List.map_map, List.map_map]
  apply List.map_congr_left
  intro i _
  simp [pow_add, mul_comm]

theorem canon_double (q : ℕ) : canon (2 * q) = (canon q).map (2 * ·) := by simpa using canon_shift 1 q
theorem canon_odd (q : ℕ) : canon (2 * q + 1) = 1 :: canon (2 * q) := by
  unfold canon
  rw [Nat.bitIndices_two_mul_add_one, Nat.bitIndices_two_mul]
  simp
theorem popcount_len (S : ℕ) : (canon S).length = popcount S := by simp [canon, popcount]

/-- the contract of hasher_merge_cv_stack applies after a push: popcount of the new total says how many merges, each merge joins the
    halves of a tree, and the result is the merged stack -/
theorem merge_after_push (q : ℕ) : ∀ t, ∃ j, Merges j (2 ^ t :: canon (2 ^ t * q)) (canon (2 ^ t * (q + 1))) ∧
    popcount (2 ^ t * q) + 1 = popcount (2 ^ t * (q + 1)) + j := by
  induction q using Nat.strong_induction_on with
  | _ q ih =>
    intro t
    rcases Nat.even_or_odd' q with ⟨r, rfl | rfl⟩
    · refine ⟨0, ?_, ?_⟩
      · have : 2 ^ t :: canon (2 ^ t * (2 * r)) = canon (2 ^ t * (2 * r + 1)) := by
          rw [canon_shift t (2 * r + 1), canon_odd, canon_shift]; simp
        rw [this]; exact Merges.none
      · rw [← popcount_len, ← popcount_len, canon_shift, canon_shift t (2 * r + 1), canon_odd]; simp
    · obtain ⟨j, h1, h2⟩ := ih r (by omega) (t + 1)
      have e1 : 2 ^ t * (2 * r + 1 + 1) = 2 ^ (t + 1) * (r + 1) := by ring
      have e2 : canon (2 ^ t * (2 * r + 1)) = 2 ^ t :: canon (2 ^ (t + 1) * r) := by
        have e3 : 2 ^ (t + 1) * r = 2 ^ t * (2 * r) := by ring
        rw [canon_shift, canon_odd, e3, canon_shift]; simp
      refine ⟨j + 1, ?_, ?_⟩
      · rw [e1, e2]
        refine Merges.step ⟨⟨t, rfl⟩, by positivity, le_rfl⟩ ?_
        have : 2 ^ t + 2 ^ t = 2 ^ (t + 1) := by ring
        rw [this]; exact h1
      · have : popcount (2 ^ t * (2 * r + 1)) = popcount (2 ^ (t + 1) * r) + 1 := by
          rw [← popcount_len, ← popcount_len, e2]; simp
        rw [e1, this]; omega

/-- every reachable stack covers exactly the chunks so far, and the contract of merge applies to it -/
theorem reach_merge {l S b} (h : Reach l S b) :
    l.sum = S ∧ (b = true → l = canon S) ∧ ∃ j, Merges j l (canon S) ∧ l.length = popcount S + j := by
  cases h with
  | init => exact ⟨rfl, fun _ => by simp [canon], 0, by simpa [canon] using Merges.none, by simp [popcount]⟩
  | merge _ => exact ⟨canon_sum _, fun _ => rfl, 0, Merges.none, by simp [popcount_len]⟩
  | @push l' S' b' t _ hd =>
    obtain ⟨q, rfl⟩ := hd
    obtain ⟨j, h1, h2⟩ := merge_after_push q t
    have e : 2 ^ t * q + 2 ^ t = 2 ^ t * (q + 1) := by ring
    refine ⟨by rw [List.sum_cons, canon_sum]; omega, by simp, j, by rw [e]; exact h1, ?_⟩
    rw [List.length_cons, popcount_len, e]; omega

/-- what lies above each entry, together with r more chunks, forms one tree with it -/
def Folds : ℕ → List ℕ → Prop
  | _, [] => True
  | r, w :: l => lsplit w r ∧ Folds (r + w) l

theorem folds_scale {c : ℕ} (hc : ∃ k, c = 2 ^ k) : ∀ (l : List ℕ) (r : ℕ), Folds r l → Folds (c * r) (l.map (c * ·))
  | [], _, _ => trivial
  | w :: l, r, ⟨⟨⟨k, hk⟩, h1, h2⟩, h3⟩ => by
    obtain ⟨i, rfl⟩ := hc
    refine ⟨⟨⟨i + k, by rw [hk, pow_add]⟩, by positivity, Nat.mul_le_mul_left _ h2⟩, ?_⟩
    have := folds_scale ⟨i, rfl⟩ l (r + w) h3
    rwa [mul_add] at this

theorem folds_le : ∀ (l : List ℕ) (r s : ℕ), 0 < r → r ≤ s → Folds s l → Folds r l
  | [], _, _, _, _, _ => trivial
  | w :: l, r, s, h0, h, ⟨⟨hk, _, h2⟩, h3⟩ => ⟨⟨hk, h0, h.trans h2⟩, folds_le l (r + w) (s + w) (by omega) (by omega) h3⟩

/-- finalize with a pending chunk: the merged stack folds around one more chunk -/
theorem folds_canon (S : ℕ) : Folds 1 (canon S) := by
  induction S using Nat.strong_induction_on with
  | _ S ih =>
    rcases Nat.eq_zero_or_pos S with rfl | hS
    · simp [canon, Folds]
    rcases Nat.even_or_odd' S with ⟨r, rfl | rfl⟩
    · have := folds_scale ⟨1, rfl⟩ _ _ (ih r (by omega))
      rw [canon_double]
      exact folds_le _ 1 2 (by omega) (by omega) (by simpa using this)
    · have := folds_scale ⟨1, rfl⟩ _ _ (ih r (by omega))
      rw [canon_odd, canon_double]
      exact ⟨⟨⟨0, rfl⟩, by omega, le_rfl⟩, by simpa using this⟩

/-- finalize without a pending chunk: the top entry is the right end of the tree -/
theorem folds_push {t S : ℕ} (h : 2 ^ t ∣ S) : Folds (2 ^ t) (canon S) := by
  obtain ⟨q, rfl⟩ := h
  rw [canon_shift]
  simpa using folds_scale ⟨t, rfl⟩ _ _ (folds_canon q)

theorem reach_folds {l S b} (h : Reach l S b) : (b = true → Folds 1 l) ∧ (b = false → ∃ w l', l = w :: l' ∧ 0 < w ∧ Folds w l') := by
  cases h with
  | init => exact ⟨fun _ => trivial, by simp⟩
  | merge _ => exact ⟨fun _ => folds_canon _, by simp⟩
  | push t _ hd => exact ⟨by simp, fun _ => ⟨_, _, rfl, by positivity, folds_push hd⟩⟩

/-- the stack never holds more than depth + 1 entries below 2^depth chunks -/
theorem popcount_le {S d : ℕ} (h : S < 2 ^ d) : popcount S ≤ d := by
  induction d generalizing S with
  | zero => have : S = 0 := by omega
            subst this; simp [popcount]
  | succ d ih =>
    rcases Nat.even_or_odd' S with ⟨r, rfl | rfl⟩
    · have := ih (S := r) (by rw [pow_succ] at h; omega)
      rw [← popcount_len, canon_double, List.length_map, popcount_len]; omega
    · have := ih (S := r) (by rw [pow_succ] at h; omega)
      rw [← popcount_len, canon_odd, canon_double, List.length_cons, List.length_map, popcount_len]; omega

theorem depth {l S b d} (h : Reach l S b) (hS : S < 2 ^ d) : l.length ≤ d + 1 := by
  cases h with
  | init => simp
  | merge _ => rw [popcount_len]; exact (popcount_le hS).trans (by omega)
  | @push _ S' _ t _ _ => rw [List.length_cons, popcount_len]; have := popcount_le (S := S') (d := d) (by omega); omega

/-! ### the tree itself -/
section
variable {V : Type*} (T : ℕ → ℕ → V) (parent : V → V → V)
/-- the definition of the BLAKE3 tree: T a b is the chaining value of chunks a .. b-1; the left part is the largest power of two below b - a -/
def IsTree : Prop := ∀ a m b, (∃ k, m - a = 2 ^ k) → a < m → m < b → b - m ≤ m - a → T a b = parent (T a m) (T m b)

/-- the chaining values on the stack, top first, when it covers the chunks up to S -/
def cvs : ℕ → List ℕ → List V
  | _, [] => []
  | S, w :: l => T (S - w) S :: cvs (S - w) l

/-- merges of the stack of chaining values: what hasher_merge_cv_stack is proved to do with the two top entries -/
theorem merges_cvs (ht : IsTree T parent) {x y l S} (hS : x + y + l.sum = S) (h : lsplit y x) :
    cvs T S ((x + y) :: l) = parent (T (S - x - y) (S - x)) (T (S - x) S) :: cvs T (S - x - y) l := by
  obtain ⟨⟨k, hk⟩, h1, h2⟩ := h
  have hp : 0 < y := by rw [hk]; positivity
  have e : S - (x + y) = S - x - y := by omega
  simp only [cvs, e]
  rw [ht (S - x - y) (S - x) S ⟨k, by omega⟩ (by omega) (by omega) (by omega)]

/-- finalize: folding the stack from the right gives the tree of all chunks -/
theorem fold_tree (ht : IsTree T parent) : ∀ (l : List ℕ) (S E : ℕ), S < E → l.sum = S → Folds (E - S) l →
    (cvs T S l).foldl (fun r v => parent v r) (T S E) = T 0 E
  | [], S, E, _, hs, _ => by simp only [List.sum_nil] at hs; subst hs; rfl
  | w :: l, S, E, hE, hs, ⟨⟨⟨k, hk⟩, h1, h2⟩, h3⟩ => by
    have hp : 0 < w := by rw [hk]; positivity
    rw [List.sum_cons] at hs
    simp only [cvs, List.foldl_cons]
    rw [← ht (S - w) S E ⟨k, by omega⟩ (by omega) hE (by omega)]
    exact fold_tree ht l (S - w) E (by omega) (by omega) (by have : E - (S - w) = E - S + w := by omega
                                                             rw [this]; exact h3)

/-- C02: the value that finalize is proved to compute from a reachable state is the tree of the message: one more chunk pending, or none -/
theorem blake3_tree (ht : IsTree T parent) {l S b} (h : Reach l S b) :
    (b = true → (cvs T S l).foldl (fun r v => parent v r) (T S (S + 1)) = T 0 (S + 1)) ∧
    (b = false → ∃ w l', l = w :: l' ∧ (cvs T (S - w) l').foldl (fun r v => parent v r) (T (S - w) S) = T 0 S) := by
  have hs := (reach_merge h).1
  refine ⟨fun hb => fold_tree T parent ht l S (S + 1) (by omega) hs (by simpa using (reach_folds h).1 hb), fun hb => ?_⟩
  obtain ⟨w, l', rfl, hp, hf⟩ := (reach_folds h).2 hb
  rw [List.sum_cons] at hs
  exact ⟨w, l', rfl, fold_tree T parent ht l' (S - w) S (by omega) (by omega) (by have : S - (S - w) = w := by omega
                                                                                  rw [this]; exact hf)⟩
end

#print axioms history
#print axioms chunk_independence
#print axioms merge_after_push
#print axioms reach_merge
#print axioms reach_folds
#print axioms depth
#print axioms merges_cvs
#print axioms fold_tree
#print axioms blake3_tree
