import Mathlib
/-! Lemmas about residues and dot products used by contracts/gauss.py, contracts/barcode.py
(and the ring facts of pvc/logic.py).  Arrays are functions on the integers; `cl` is the
reduction map to `ZMod p`, `fdot a b n` the dot product of the first `n` entries. -/
namespace PMV
open Finset

theorem prime_divisor (p x b : ℤ) (hp : Prime p) (hp0 : 0 < p) (hx : 0 < x) (hb : 0 < b) (h : x * b = p) :
    b = 1 ∨ b = p := by
  rcases (hp.irreducible.isUnit_or_isUnit h.symm) with hu | hu
  · right
    rcases Int.isUnit_iff.1 hu with h1 | h1
    · subst h1; simpa using h
    · omega
  · left
    rcases Int.isUnit_iff.1 hu with h1 | h1 <;> omega

theorem mod_unique (p a m K : ℤ) (hp : 2 ≤ p) (h : a * m = 1 + p * K) : (a * m) % p = 1 := by
  rw [h, Int.add_mul_emod_self_left]
  exact Int.emod_eq_of_lt (by norm_num) (by omega)

/-- residue class -/
def cl (p : ℕ) (a : ℤ) : ZMod p := (a : ZMod p)
def fdot (p : ℕ) (a b : ℤ → ℤ) (n : ℤ) : ZMod p := ∑ i ∈ range n.toNat, cl p (a i) * cl p (b i)
def idot (a b : ℤ → ℤ) (n : ℤ) : ℤ := ∑ i ∈ range n.toNat, a i * b i

section ring
variable (p : ℕ)
theorem cl_zero : cl p 0 = 0 := by simp [cl]
theorem cl_one : cl p 1 = 1 := by simp [cl]
theorem cl_add (a b : ℤ) : cl p (a + b) = cl p a + cl p b := by simp [cl]
theorem cl_sub (a b : ℤ) : cl p (a - b) = cl p a - cl p b := by simp [cl]
theorem cl_neg (a : ℤ) : cl p (-a) = -cl p a := by simp [cl]
theorem cl_mul (a b : ℤ) : cl p (a * b) = cl p a * cl p b := by simp [cl]
theorem cl_mod (a : ℤ) : cl p (a % p) = cl p a := by simp [cl]
theorem cl_p : cl p p = 0 := by simp [cl]
theorem cl_idot (a b : ℤ → ℤ) (n : ℤ) : cl p (idot a b n) = fdot p a b n := by
  simp [cl, idot, fdot]
theorem cl_inj (a : ℤ) (h0 : 0 ≤ a) (h1 : a < p) (h : cl p a = 0) : a = 0 := by
  have := (ZMod.intCast_zmod_eq_zero_iff_dvd a p).1 h
  exact Int.eq_zero_of_dvd_of_nonneg_of_lt h0 h1 this
theorem zero_ne_one (hp : 2 ≤ p) : (0 : ZMod p) ≠ 1 := by
  haveI : Fact (1 < p) := ⟨by omega⟩
  exact _root_.zero_ne_one
theorem eq_iff_mod (a b : ℤ) : cl p a = cl p b ↔ a % p = b % p := by
  simp only [cl, ZMod.intCast_eq_intCast_iff, Int.ModEq]
end ring

/-- consequences of an inverse in a commutative ring -/
theorem cancel {R : Type*} [CommRing R] (m a x : R) (h : m * a = 1) :
    (x * m) * a = x ∧ (m * x) * a = x ∧ (-(x * m)) * a = -x ∧ (-(m * x)) * a = -x ∧
    (x * a) * m = x ∧ (a * x) * m = x ∧ (-(x * a)) * m = -x ∧ (-(a * x)) * m = -x := by
  refine ⟨?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩ <;> first
    | linear_combination x * h
    | linear_combination (-x) * h

theorem neg_unique {R : Type*} [CommRing R] (y z : R) (h : y + z = 0) : -y = z :=
  neg_eq_of_add_eq_zero_right h

section dots
variable (p : ℕ)

theorem fdot_zero_terms (a b : ℤ → ℤ) : fdot p a b 0 = 0 := by simp [fdot]

theorem fdot_congr (a b a' b' : ℤ → ℤ) (n : ℤ)
    (ha : ∀ i, 0 ≤ i → i < n → cl p (a i) = cl p (a' i)) (hb : ∀ i, 0 ≤ i → i < n → cl p (b i) = cl p (b' i)) :
    fdot p a b n = fdot p a' b' n := by
  unfold fdot
  refine sum_congr rfl fun i hi => ?_
  have hi' := mem_range.1 hi
  rw [ha i (by omega) (by omega), hb i (by omega) (by omega)]

/-- dot products are linear in the second argument: entries `z i = k * b i + l * c i` mod p -/
theorem fdot_linear (v z b c : ℤ → ℤ) (k l : ZMod p) (h : ∀ i, cl p (z i) = k * cl p (b i) + l * cl p (c i)) (n : ℤ) :
    fdot p v z n = k * fdot p v b n + l * fdot p v c n := by
  unfold fdot
  rw [mul_sum, mul_sum, ← sum_add_distrib]
  exact sum_congr rfl fun i _ => by rw [h]; ring

theorem fdot_linear_one (v z b : ℤ → ℤ) (k : ZMod p) (h : ∀ i, cl p (z i) = k * cl p (b i)) (n : ℤ) :
    fdot p v z n = k * fdot p v b n := by
  unfold fdot
  rw [mul_sum]
  exact sum_congr rfl fun i _ => by rw [h]; ring

theorem fdot_unit (v e : ℤ → ℤ) (c k : ℤ) (hc : 0 ≤ c) (hk : c < k) (he : ∀ j, e j = if c = j then 1 else 0) :
    fdot p v e k = cl p (v c) := by
  unfold fdot
  rw [sum_eq_single c.toNat]
  · rw [he, Int.toNat_of_nonneg hc]; simp [cl]
  · intro b _ hb
    have : c ≠ (b : ℤ) := fun h => hb (by omega)
    rw [he, if_neg this]; simp [cl]
  · intro h; exact absurd (mem_range.2 (by omega)) h

theorem fdot_succ (a b : ℤ → ℤ) (n : ℤ) (hn : 0 ≤ n) : fdot p a b (n + 1) = fdot p a b n + cl p (a n) * cl p (b n) := by
  unfold fdot
  have : (n + 1).toNat = n.toNat + 1 := by omega
  rw [this, sum_range_succ, Int.toNat_of_nonneg hn]

/-- columns `n .. N-1` of the product are used with coefficient 1 at `n+s` and 0 elsewhere -/
theorem dot_split (M A T b : ℤ → ℤ) (n N s : ℤ) (hn : 0 ≤ n) (hs : 0 ≤ s) (hN : n + s < N)
    (hA : ∀ k, 0 ≤ k → k < n → M k = A k) (hb : M (n + s) = b s) (h1 : T (n + s) = 1)
    (h0 : ∀ t, 0 ≤ t → t < N - n → t ≠ s → T (n + t) = 0) :
    fdot p M T N = fdot p A T n + cl p (b s) := by
  have key : ∀ m : ℕ, (m : ℤ) ≤ N - n → fdot p M T (n + m) = fdot p A T n + if s < m then cl p (b s) else 0 := by
    intro m
    induction m with
    | zero =>
      intro _
      have : ¬ s < ((0 : ℕ) : ℤ) := by push_cast; omega
      rw [if_neg this]
      simp only [Nat.cast_zero, add_zero]
      exact fdot_congr p _ _ _ _ _ (fun i h0 h1 => by rw [hA i h0 h1]) (fun _ _ _ => rfl)
    | succ m ih =>
      intro hm
      push_cast at hm ⊢
      rw [← add_assoc, fdot_succ p M T _ (by omega), ih (by omega)]
      by_cases he : (m : ℤ) = s
      · rw [he, h1, hb, if_neg (lt_irrefl s), if_pos (by omega)]; simp [cl]
      · rw [h0 m (by omega) (by omega) he]
        have : (s < (m : ℤ) + 1) ↔ (s < (m : ℤ)) := by omega
        simp only [this]; simp [cl]
  have := key (N - n).toNat (by omega)
  have e : n + ((N - n).toNat : ℤ) = N := by omega
  rw [e, if_pos (by omega)] at this
  exact this

theorem dot_neg (v x t : ℤ → ℤ) (n : ℤ) (h : ∀ k, 0 ≤ k → k < n → cl p (x k) = -cl p (t k)) :
    fdot p v x n = -fdot p v t n := by
  unfold fdot
  rw [← sum_neg_distrib]
  refine sum_congr rfl fun i hi => ?_
  have := mem_range.1 hi
  rw [h i (by omega) (by omega)]; ring

/-- a sum over all indices of a vector supported on the distinct indices `c 0 .. c (q-1)` -/
theorem sum_scatter {R : Type*} [CommRing R] (f : ℤ → R) (c : ℤ → ℤ) (q s : ℤ)
    (hr : ∀ b, 0 ≤ b → b < q → 0 ≤ c b ∧ c b < s) (hi : ∀ a b, 0 ≤ a → a < b → b < q → c a ≠ c b)
    (ho : ∀ k, 0 ≤ k → k < s → f k ≠ 0 → ∃ b, 0 ≤ b ∧ b < q ∧ c b = k) :
    ∑ k ∈ range s.toNat, f k = ∑ b ∈ range q.toNat, f (c b) := by
  symm
  refine sum_of_injOn (fun b : ℕ => (c b).toNat) ?_ ?_ ?_ ?_
  · intro a ha b hb hab
    have ha' := mem_range.1 (mem_coe.1 ha); have hb' := mem_range.1 (mem_coe.1 hb)
    have h1 := hr a (by omega) (by omega); have h2 := hr b (by omega) (by omega)
    have hab' : c a = c b := by simp only at hab; omega
    rcases lt_trichotomy a b with h | h | h
    · exact absurd hab' (hi a b (by omega) (by omega) (by omega))
    · exact h
    · exact absurd hab'.symm (hi b a (by omega) (by omega) (by omega))
  · intro b hb
    have hb' := mem_range.1 (mem_coe.1 hb)
    have h1 := hr b (by omega) (by omega)
    simp only [coe_range, Set.mem_Iio]; omega
  · intro k hk hn
    by_contra hne
    have hk' := mem_range.1 hk
    obtain ⟨b, hb0, hb1, hb2⟩ := ho k (by omega) (by omega) hne
    refine hn ⟨b.toNat, by simp only [coe_range, Set.mem_Iio]; omega, ?_⟩
    simp only; rw [Int.toNat_of_nonneg hb0, hb2]; simp
  · intro b hb
    have hb' := mem_range.1 hb
    have h1 := hr b (by omega) (by omega)
    rw [Int.toNat_of_nonneg h1.1]

theorem dot_scatter (A w M v c : ℤ → ℤ) (q s : ℤ)
    (hsub : ∀ b, 0 ≤ b → b < q → M b = A (c b))
    (hr : ∀ b, 0 ≤ b → b < q → (0 ≤ c b ∧ c b < s) ∧ cl p (w (c b)) = -cl p (v b))
    (hi : ∀ a b, 0 ≤ a → a < b → b < q → c a ≠ c b)
    (ho : ∀ k, 0 ≤ k → k < s → w k ≠ 0 → ∃ b, 0 ≤ b ∧ b < q ∧ c b = k) :
    fdot p A w s = -fdot p M v q := by
  unfold fdot
  rw [sum_scatter (fun k => cl p (A k) * cl p (w k)) c q s (fun b h0 h1 => (hr b h0 h1).1) hi, ← sum_neg_distrib]
  · refine sum_congr rfl fun b hb => ?_
    have := mem_range.1 hb
    rw [hsub b (by omega) (by omega), (hr b (by omega) (by omega)).2]; ring
  · intro k h0 h1 hk
    refine ho k h0 h1 fun h => hk ?_
    simp [h, cl]

theorem idot_scatter (X Y D W c : ℤ → ℤ) (n d : ℤ)
    (hX : ∀ a, 0 ≤ a → a < n → X a = D (c a)) (hY : ∀ a, 0 ≤ a → a < n → Y a = W (c a))
    (hi : ∀ a b, 0 ≤ a → a < b → b < n → c a ≠ c b) (hr : ∀ a, 0 ≤ a → a < n → 0 ≤ c a ∧ c a < d)
    (ho : ∀ k, 0 ≤ k → k < d → W k ≠ 0 → ∃ a, 0 ≤ a ∧ a < n ∧ c a = k) :
    idot X Y n = idot D W d := by
  unfold idot
  rw [sum_scatter (fun k => D k * W k) c n d hr hi]
  · refine sum_congr rfl fun b hb => ?_
    have := mem_range.1 hb
    rw [hX b (by omega) (by omega), hY b (by omega) (by omega)]
  · intro k h0 h1 hk
    exact ho k h0 h1 fun h => hk (by simp [h])

end dots
/-- products that differ only where the other factor vanishes -/
theorem dot_masked (a d t : ℤ → ℤ) (n : ℤ) (h : ∀ i, 0 ≤ i → i < n → a i = d i ∨ t i = 0) :
    fdot p a t n = fdot p d t n := by
  unfold fdot
  refine sum_congr rfl fun i hi => ?_
  have := mem_range.1 hi
  rcases h i (by omega) (by omega) with e | e
  · rw [e]
  · rw [e]; simp [cl]

end PMV
