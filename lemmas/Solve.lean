import Mathlib
/-! solve_complete (contracts/gauss.py): if the reduction `M * T = R` of `M = [A | b_0 .. ]` (T unit upper
triangular, entries of R canonical, so that integer entries vanish iff their classes do, nonzero columns of R
with distinct pivots) leaves a nonzero column at some right-hand side, some right-hand side has no solution.
Columns of `M`, `R` are vectors over the field `K = ZMod p`; `pv j` is the pivot of column `j` of `R`. -/
namespace PMV
open Finset

variable {K : Type*} [Field K] {m : ℕ}

/-- a combination of columns with distinct pivots has the pivot of one of them -/
theorem pivot_of_combination (R : ℕ → Fin m → K) (pv : ℕ → ℤ) (n : ℕ) (v : Fin m → K) (c : ℕ → K)
    (hv : v = ∑ j ∈ range n, c j • R j) (hne : v ≠ 0)
    (hz : ∀ j, pv j = -1 → R j = 0) (hlo : ∀ j, -1 ≤ pv j)
    (hnz : ∀ j, 0 ≤ pv j → ∃ i : Fin m, (i : ℤ) = pv j ∧ R j i ≠ 0)
    (hab : ∀ j (i : Fin m), pv j < (i : ℤ) → R j i = 0)
    (hd : ∀ a b, a < n → b < n → a ≠ b → pv a > -1 → pv a ≠ pv b) :
    ∃ j, j < n ∧ 0 ≤ pv j ∧ (∃ i : Fin m, (i : ℤ) = pv j ∧ v i ≠ 0) ∧ ∀ i : Fin m, pv j < (i : ℤ) → v i = 0 := by
  classical
  set S := (range n).filter (fun j => c j ≠ 0 ∧ pv j ≠ -1) with hS
  have hSne : S.Nonempty := by
    by_contra h
    rw [not_nonempty_iff_eq_empty] at h
    apply hne
    rw [hv]
    refine sum_eq_zero fun j hj => ?_
    by_cases hc : c j = 0
    · simp [hc]
    · by_cases hp : pv j = -1
      · simp [hz j hp]
      · have : j ∈ S := by simp [hS, mem_range.1 hj, hc, hp]
        rw [h] at this; simp at this
  obtain ⟨j, hjS, hmax⟩ := S.exists_max_image pv hSne
  have hj := (mem_filter.1 hjS)
  have hjn := mem_range.1 hj.1
  have hpj : 0 ≤ pv j := by have := hlo j; have := hj.2.2; omega
  have other : ∀ k ∈ range n, k ≠ j → ∀ i : Fin m, pv j ≤ (i : ℤ) → c k • R k i = 0 := by
    intro k hk hkj i hi
    by_cases hc : c k = 0
    · simp [hc]
    · by_cases hp : pv k = -1
      · simp [hz k hp]
      · have hkS : k ∈ S := by simp [hS, mem_range.1 hk, hc, hp]
        have h1 := hmax k hkS
        have h2 := hd j k hjn (mem_range.1 hk) (Ne.symm hkj) (by omega)
        rw [hab k i (by omega)]; simp
  obtain ⟨i, hi, hRi⟩ := hnz j hpj
  refine ⟨j, hjn, hpj, ⟨i, hi, ?_⟩, ?_⟩
  · rw [hv, Finset.sum_apply, sum_eq_single j]
    · simp only [Pi.smul_apply, smul_eq_mul]
      exact mul_ne_zero hj.2.1 hRi
    · intro k hk hkj
      exact other k hk hkj i (by omega)
    · intro h; exact absurd hj.1 h
  · intro i' hi'
    rw [hv, Finset.sum_apply]
    refine sum_eq_zero fun k hk => ?_
    by_cases hkj : k = j
    · subst hkj; simp [hab k i' hi']
    · exact other k hk hkj i' (by omega)

/-- the columns of M below `n` are combinations of the columns of R below `n` -/
theorem columns_in_span (M R : ℕ → Fin m → K) (T : ℕ → ℕ → K) (N : ℕ)
    (hT0 : ∀ c i, c < N → i < N → c < i → T c i = 0) (hT1 : ∀ c, c < N → T c c = 1)
    (hR : ∀ c, c < N → R c = ∑ i ∈ range N, T c i • M i) :
    ∀ k, k < N → M k ∈ Submodule.span K (R '' {j | j ≤ k}) := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    intro hk
    have h1 : R k = M k + ∑ i ∈ range k, T k i • M i := by
      rw [hR k hk]
      have hsplit : range N = insert k (range k) ∪ (range N).filter (fun i => k < i) := by
        ext i; simp only [mem_union, mem_insert, mem_range, mem_filter]; omega
      have hdisj : Disjoint (insert k (range k)) ((range N).filter (fun i => k < i)) := by
        rw [Finset.disjoint_left]; intro i hi hi2
        simp only [mem_insert, mem_range, mem_filter] at hi hi2; omega
      rw [hsplit, sum_union hdisj, sum_insert (by simp), hT1 k hk, one_smul]
      rw [sum_eq_zero (s := (range N).filter (fun i => k < i)), add_zero]
      intro i hi
      simp only [mem_filter, mem_range] at hi
      rw [hT0 k i hk hi.1 hi.2, zero_smul]
    have h2 : M k = R k - ∑ i ∈ range k, T k i • M i := by rw [h1]; abel
    rw [h2]
    refine Submodule.sub_mem _ (Submodule.subset_span ⟨k, le_refl k, rfl⟩) (Submodule.sum_mem _ fun i hi => ?_)
    have hi' := mem_range.1 hi
    refine Submodule.smul_mem _ _ (Submodule.span_mono ?_ (ih i hi' (by omega)))
    exact Set.image_mono fun j (hj : j ≤ i) => (by simp only [Set.mem_setOf_eq]; omega)

theorem solve_complete (M R : ℕ → Fin m → K) (T : ℕ → ℕ → K) (pv : ℕ → ℤ) (n N s : ℕ) (hs : n + s < N)
    (hT0 : ∀ c i, c < N → i < N → c < i → T c i = 0) (hT1 : ∀ c, c < N → T c c = 1)
    (hR : ∀ c, c < N → R c = ∑ i ∈ range N, T c i • M i)
    (hz : ∀ j, pv j = -1 → R j = 0) (hlo : ∀ j, -1 ≤ pv j)
    (hnz : ∀ j, 0 ≤ pv j → ∃ i : Fin m, (i : ℤ) = pv j ∧ R j i ≠ 0)
    (hab : ∀ j (i : Fin m), pv j < (i : ℤ) → R j i = 0)
    (hd : ∀ a b, a < b → b < N → pv a > -1 → pv a ≠ pv b)
    (hlast : pv (n + s) > -1) :
    ∃ t, n + t < N ∧ ¬ ∃ x : ℕ → K, M (n + t) = ∑ j ∈ range n, x j • M j := by
  by_contra hcon
  push Not at hcon
  have hd' : ∀ a b, a < N → b < N → a ≠ b → pv a > -1 → pv a ≠ pv b := by
    intro a b ha hb hab1 hp
    rcases lt_or_gt_of_ne hab1 with h | h
    · exact hd a b h hb hp
    · intro he
      exact hd b a h ha (by omega) he.symm
  have hlow : ∀ k, k < n → M k ∈ Submodule.span K (R '' {j | j < n}) := fun k hk =>
    Submodule.span_mono (Set.image_mono fun j (hj : j ≤ k) => (by simp only [Set.mem_setOf_eq]; omega))
      (columns_in_span M R T N hT0 hT1 hR k (by omega))
  have hall : ∀ k, k < N → M k ∈ Submodule.span K (R '' {j | j < n}) := by
    intro k hk
    by_cases h : k < n
    · exact hlow k h
    · obtain ⟨x, hx⟩ := hcon (k - n) (by omega)
      have e : n + (k - n) = k := by omega
      rw [e] at hx
      rw [hx]
      exact Submodule.sum_mem _ fun j hj => Submodule.smul_mem _ _ (hlow j (mem_range.1 hj))
  have hin : R (n + s) ∈ Submodule.span K (R '' {j | j < n}) := by
    rw [hR _ hs]
    exact Submodule.sum_mem _ fun i hi => Submodule.smul_mem _ _ (hall i (mem_range.1 hi))
  have himg : (R '' {j | j < n}) = Set.range (fun j : Fin n => R j) := by
    ext v; constructor
    · rintro ⟨j, hj, rfl⟩; exact ⟨⟨j, hj⟩, rfl⟩
    · rintro ⟨j, rfl⟩; exact ⟨j, j.2, rfl⟩
  rw [himg, Submodule.mem_span_range_iff_exists_fun] at hin
  obtain ⟨c, hc⟩ := hin
  have hv : R (n + s) = ∑ j ∈ range n, (fun j => if h : j < n then c ⟨j, h⟩ else 0) j • R j := by
    rw [← hc, Finset.sum_range]
    exact sum_congr rfl fun j _ => by simp
  obtain ⟨i, hi, hRi⟩ := hnz (n + s) (by omega)
  have hne : R (n + s) ≠ 0 := fun h => hRi (by rw [h]; rfl)
  obtain ⟨j, hjn, hpj, ⟨i', hi', hvi⟩, hv0⟩ := pivot_of_combination R pv n (R (n + s)) _ hv hne hz hlo hnz hab
    (fun a b ha hb => hd' a b (by omega) (by omega))
  have hneq := hd' j (n + s) (by omega) hs (by omega) (by omega)
  rcases lt_or_gt_of_ne hneq with h | h
  · exact hRi (hv0 i (by omega))
  · exact hvi (hab _ _ (by omega))
end PMV
