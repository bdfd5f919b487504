import Mathlib
/-! Composition lemma for contracts/complexes.py: the postcondition of `complex_differentials` (entry (j, i) of the
differential d is (-1)^q if the face j is the simplex i without its vertex q, and 0 if it is no face) implies that
the composition of two consecutive differentials vanishes, on every complex that is closed under faces and lists
every simplex once. -/
namespace PMV
open Finset

/-- `s` without its entry `q` -/
def del (q : ℕ) (s : ℕ → ℤ) : ℕ → ℤ := fun t => if t < q then s t else s (t + 1)

def Same (n : ℕ) (a b : ℕ → ℤ) : Prop := ∀ t, t < n → a t = b t

open Classical in
/-- the coefficient of `c` (`d` vertices) in the boundary of `s` (`d + 1` vertices) -/
noncomputable def bcoef (R : Type*) [CommRing R] (d : ℕ) (c s : ℕ → ℤ) : R :=
  ∑ q ∈ range (d + 1), if Same d c (del q s) then (-1) ^ q else 0

/-- an increasing simplex has at most one vertex whose omission gives `c`: the coefficient is the sign of the contract -/
theorem bcoef_eq (R : Type*) [CommRing R] (d : ℕ) (c s : ℕ → ℤ) (hs : ∀ a b, a < b → b ≤ d → s a < s b) :
    (∀ q, q ≤ d → Same d c (del q s) → bcoef R d c s = (-1) ^ q) ∧
    ((∀ q, q ≤ d → ¬ Same d c (del q s)) → bcoef R d c s = 0) := by
  classical
  have uniq : ∀ q r, q < r → r ≤ d → Same d c (del q s) → ¬ Same d c (del r s) := by
    intro q r qr rd h1 h2
    have e1 := h1 q (by omega)
    have e2 := h2 q (by omega)
    simp only [del, lt_irrefl, if_false] at e1
    simp only [del, qr, if_true] at e2
    have := hs q (q + 1) (by omega) (by omega)
    omega
  refine ⟨?_, ?_⟩
  · intro q hq h
    unfold bcoef
    rw [sum_eq_single q]
    · simp [h]
    · intro b hb hbq
      have hb' : b ≤ d := by simp at hb; omega
      rw [if_neg]
      intro hb2
      rcases lt_or_gt_of_ne hbq with g | g
      · exact uniq b q g hq hb2 h
      · exact uniq q b g hb' h hb2
    · intro hn; simp at hn; omega
  · intro h
    unfold bcoef
    apply sum_eq_zero
    intro q hq
    rw [if_neg (h q (by simp at hq; omega))]

theorem bcoef_congr (R : Type*) [CommRing R] (d : ℕ) (c s s' : ℕ → ℤ) (h : Same (d + 1) s s') :
    bcoef R d c s = bcoef R d c s' := by
  classical
  unfold bcoef
  apply sum_congr rfl
  intro q hq
  have : Same d c (del q s) ↔ Same d c (del q s') := by
    constructor
    · intro g t ht
      rw [g t ht]; simp only [del]; split_ifs <;> exact h _ (by omega)
    · intro g t ht
      rw [g t ht]; simp only [del]; split_ifs <;> exact (h _ (by omega)).symm
  simp [this]

theorem del_del (s : ℕ → ℤ) (q r : ℕ) (h : q ≤ r) : del r (del q s) = del q (del (r + 1) s) := by
  funext t
  simp only [del]
  split_ifs <;> first | rfl | omega

/-- deleting vertices one after the other, with signs, cancels -/
theorem boundary_sum (R : Type*) [CommRing R] (d : ℕ) (u s : ℕ → ℤ) :
    ∑ q ∈ range (d + 2), (-1 : R) ^ q * bcoef R d u (del q s) = 0 := by
  classical
  unfold bcoef
  simp only [mul_sum, mul_ite, mul_zero, ← pow_add]
  rw [← sum_product']
  apply sum_involution (fun x _ => if x.1 ≤ x.2 then (x.2 + 1, x.1) else (x.2, x.1 - 1))
  · rintro ⟨q, r⟩ hx
    simp only
    by_cases h : q ≤ r
    · simp only [h, if_true, del_del s q r h]
      split_ifs
      · rw [show r + 1 + q = (q + r) + 1 by ring, pow_succ]; ring
      · simp
    · simp only [h, if_false]
      obtain ⟨m, rfl⟩ : ∃ m, q = m + 1 := ⟨q - 1, by omega⟩
      simp only [Nat.add_sub_cancel]
      rw [← del_del s r m (by omega)]
      split_ifs
      · rw [show m + 1 + r = (r + m) + 1 by ring, pow_succ]; ring
      · simp
  · rintro ⟨q, r⟩ _ _ h
    simp only at h
    split_ifs at h <;> simp [Prod.ext_iff] at h <;> omega
  · rintro ⟨q, r⟩ hx
    simp only
    by_cases h : q ≤ r
    · simp only [h, if_true]
      rw [if_neg (by omega)]; simp
    · simp only [h, if_false]
      rw [if_pos (by omega)]
      ext <;> simp <;> omega
  · rintro ⟨q, r⟩ hx
    simp only [mem_product, mem_range] at *
    split_ifs <;> simp <;> omega

/-- consecutive differentials compose to zero: `T j`, `j < n`, are the simplices of dimension `d`, each listed once,
and every face of `s` is among them -/
theorem dd_zero (R : Type*) [CommRing R] (d n : ℕ) (T : ℕ → ℕ → ℤ) (u s : ℕ → ℤ)
    (hs : ∀ a b, a < b → b ≤ d + 1 → s a < s b)
    (once : ∀ i j, i < n → j < n → Same (d + 1) (T i) (T j) → i = j)
    (closed : ∀ q, q ≤ d + 1 → ∃ j, j < n ∧ Same (d + 1) (T j) (del q s)) :
    ∑ j ∈ range n, bcoef R d u (T j) * bcoef R (d + 1) (T j) s = 0 := by
  classical
  choose! f f1 f2 using closed
  have hE := bcoef_eq R (d + 1)
  have inj : ∀ q ∈ range (d + 2), ∀ r ∈ range (d + 2), f q = f r → q = r := by
    intro q hq r hr h
    simp only [mem_range] at hq hr
    have a : Same (d + 1) (del q s) (del r s) := fun t ht => by
      rw [← f2 q (by omega) t ht, h, f2 r (by omega) t ht]
    by_contra hne
    rcases lt_or_gt_of_ne hne with g | g
    · have := a q (by omega)
      simp only [del, lt_irrefl, if_false, g, if_true] at this
      have := hs q (q + 1) (by omega) (by omega); omega
    · have := a r (by omega)
      simp only [del, lt_irrefl, if_false, g, if_true] at this
      have := hs r (r + 1) (by omega) (by omega); omega
  have sub : (range (d + 2)).image f ⊆ range n := by
    intro j hj
    obtain ⟨q, hq, rfl⟩ := mem_image.1 hj
    simp only [mem_range] at *
    exact f1 q (by omega)
  rw [← sum_subset sub]
  · rw [sum_image inj, ← boundary_sum R d u s]
    apply sum_congr rfl
    intro q hq
    simp only [mem_range] at hq
    rw [bcoef_congr R d u _ _ (f2 q (by omega)), (hE (T (f q)) s hs).1 q (by omega) (f2 q (by omega)), mul_comm]
  · intro j hj hn
    rw [(hE (T j) s hs).2, mul_zero]
    intro q hq h
    apply hn
    rw [mem_image]
    refine ⟨q, by simp; omega, ?_⟩
    simp only [mem_range] at hj
    exact once _ _ (f1 q (by omega)) hj (fun t ht => by rw [f2 q (by omega) t ht, h t ht])
end PMV
