import Mathlib
/-! Lemmas about increasing enumerations, subsets and numbering used by contracts/barcode.py,
contracts/complexes.py and contracts/samples.py.  Arrays are functions on the integers. -/
namespace PMV
open Finset

/-- strictly increasing on `0 ≤ i < n` -/
def Incr (e : ℤ → ℤ) (n : ℤ) : Prop := ∀ i j, 0 ≤ i → i < j → j < n → e i < e j

theorem enum_values (e f : ℤ → ℤ) (n m : ℤ) (he : Incr e n) (hf : Incr f m)
    (h1 : ∀ i, 0 ≤ i → i < n → ∃ j, 0 ≤ j ∧ j < m ∧ f j = e i)
    (h2 : ∀ j, 0 ≤ j → j < m → ∃ i, 0 ≤ i ∧ i < n ∧ e i = f j) :
    ∀ k : ℕ, (k : ℤ) < n → (k : ℤ) < m → e k = f k := by
  intro k
  induction k using Nat.strong_induction_on with
  | _ k ih =>
    intro hn hm
    apply le_antisymm
    · obtain ⟨i, h0, hi, hfi⟩ := h2 k (by omega) hm
      rw [← hfi]
      by_contra hlt
      push Not at hlt
      have hik : i < k := by
        by_contra hc
        rcases eq_or_lt_of_le (not_lt.1 hc) with h | h
        · rw [h] at hlt; exact lt_irrefl _ hlt
        · exact absurd (he k i (by omega) h hi) (by omega)
      have := ih i.toNat (by omega) (by omega) (by omega)
      rw [Int.toNat_of_nonneg h0] at this
      have h3 := hf i k h0 hik hm
      omega
    · obtain ⟨i, h0, hi, hfi⟩ := h1 k (by omega) hn
      rw [← hfi]
      by_contra hlt
      push Not at hlt
      have hik : i < k := by
        by_contra hc
        rcases eq_or_lt_of_le (not_lt.1 hc) with h | h
        · rw [h] at hlt; exact lt_irrefl _ hlt
        · exact absurd (hf k i (by omega) h hi) (by omega)
      have := ih i.toNat (by omega) (by omega) (by omega)
      rw [Int.toNat_of_nonneg h0] at this
      have h3 := he i k h0 hik hn
      omega

/-- increasing enumerations of the same set are equal -/
theorem incr_unique (e f : ℤ → ℤ) (n m : ℤ) (hn : 0 ≤ n) (hm : 0 ≤ m) (he : Incr e n) (hf : Incr f m)
    (h1 : ∀ i, 0 ≤ i → i < n → ∃ j, 0 ≤ j ∧ j < m ∧ f j = e i)
    (h2 : ∀ j, 0 ≤ j → j < m → ∃ i, 0 ≤ i ∧ i < n ∧ e i = f j) :
    n = m ∧ ∀ i, 0 ≤ i → i < n → e i = f i := by
  have hv := enum_values e f n m he hf h1 h2
  have hnm : n = m := by
    rcases lt_trichotomy n m with h | h | h
    · obtain ⟨i, h0, hi, hfi⟩ := h2 n hn h
      have := hv i.toNat (by omega) (by omega)
      rw [Int.toNat_of_nonneg h0] at this
      have := hf i n h0 hi h
      omega
    · exact h
    · obtain ⟨i, h0, hi, hfi⟩ := h1 m hm h
      have := hv i.toNat (by omega) (by omega)
      rw [Int.toNat_of_nonneg h0] at this
      have := he i m h0 hi h
      omega
  refine ⟨hnm, fun i h0 hi => ?_⟩
  have := hv i.toNat (by omega) (by omega)
  rwa [Int.toNat_of_nonneg h0] at this

/-- enumerations of the true positions of equal masks -/
theorem enum_unique (P Q : ℤ → Prop) (L : ℤ) (hPQ : ∀ i, 0 ≤ i → i < L → (P i ↔ Q i))
    (e f : ℤ → ℤ) (n m : ℤ) (hn : 0 ≤ n) (hm : 0 ≤ m) (he : Incr e n) (hf : Incr f m)
    (he1 : ∀ i, 0 ≤ i → i < n → 0 ≤ e i ∧ e i < L ∧ P (e i)) (hf1 : ∀ i, 0 ≤ i → i < m → 0 ≤ f i ∧ f i < L ∧ Q (f i))
    (he2 : ∀ x, 0 ≤ x → x < L → P x → ∃ i, 0 ≤ i ∧ i < n ∧ e i = x)
    (hf2 : ∀ x, 0 ≤ x → x < L → Q x → ∃ i, 0 ≤ i ∧ i < m ∧ f i = x) :
    n = m ∧ ∀ i, 0 ≤ i → i < n → e i = f i := by
  refine incr_unique e f n m hn hm he hf ?_ ?_
  · intro i h0 hi
    obtain ⟨a, b, c⟩ := he1 i h0 hi
    exact hf2 _ a b ((hPQ _ a b).1 c)
  · intro i h0 hi
    obtain ⟨a, b, c⟩ := hf1 i h0 hi
    exact he2 _ a b ((hPQ _ a b).2 c)

/-- `c` (length d) is `s` (length d+1) without entry q -/
def Omits (c s : ℤ → ℤ) (d q : ℤ) : Prop :=
  0 ≤ q ∧ q ≤ d ∧ ∀ a, 0 ≤ a → a < d → c a = if a < q then s a else s (a + 1)

theorem incr_inj {e : ℤ → ℤ} {n : ℤ} (he : Incr e n) {i j : ℤ} (h0 : 0 ≤ i) (hi : i < n) (h1 : 0 ≤ j) (hj : j < n)
    (h : e i = e j) : i = j := by
  rcases lt_trichotomy i j with h' | h' | h'
  · have := he i j h0 h' hj; omega
  · exact h'
  · have := he j i h1 h' hi; omega

/-- at most one entry can be omitted -/
theorem omit_unique (c s : ℤ → ℤ) (d q r : ℤ) (hs : Incr s (d + 1)) (hq : Omits c s d q) (hr : Omits c s d r) : q = r := by
  wlog h : q < r generalizing q r
  · rcases lt_trichotomy q r with h1 | h1 | h1
    · exact absurd h1 h
    · exact h1
    · exact (this r q hr hq h1).symm
  obtain ⟨q0, q1, q2⟩ := hq
  obtain ⟨r0, r1, r2⟩ := hr
  have a1 := q2 q q0 (by omega)
  have a2 := r2 q q0 (by omega)
  rw [if_neg (lt_irrefl q)] at a1
  rw [if_pos h] at a2
  have := hs q (q + 1) q0 (by omega) (by omega)
  omega

/-- a subset with all but one of the entries omits exactly that one -/
theorem omit_of_subset (c s : ℤ → ℤ) (d : ℤ) (hd : 0 ≤ d) (hc : Incr c d) (hs : Incr s (d + 1))
    (hsub : ∀ a, 0 ≤ a → a < d → ∃ b, 0 ≤ b ∧ b < d + 1 ∧ s b = c a) : ∃ q, Omits c s d q := by
  -- some entry of s is not in c
  have hex : ∃ q, 0 ≤ q ∧ q < d + 1 ∧ ∀ a, 0 ≤ a → a < d → c a ≠ s q := by
    by_contra hcon
    push Not at hcon
    have := (incr_unique c s d (d + 1) hd (by omega) hc hs hsub (fun j h0 hj => by
      obtain ⟨a, ha, ha', h⟩ := hcon j h0 hj
      exact ⟨a, ha, ha', h⟩)).1
    omega
  obtain ⟨q, q0, q1, q2⟩ := hex
  refine ⟨q, q0, by omega, ?_⟩
  set t : ℤ → ℤ := fun a => if a < q then s a else s (a + 1) with ht
  have hti : Incr t d := by
    intro i j h0 hij hj
    simp only [ht]
    split_ifs with h1 h2 h2
    · exact hs i j h0 hij (by omega)
    · exact hs i (j + 1) h0 (by omega) (by omega)
    · omega
    · exact hs (i + 1) (j + 1) (by omega) (by omega) (by omega)
  -- every entry of c is one of t; and since both have d entries, they agree
  have hct : ∀ a, 0 ≤ a → a < d → ∃ b, 0 ≤ b ∧ b < d ∧ t b = c a := by
    intro a h0 ha
    obtain ⟨b, b0, b1, b2⟩ := hsub a h0 ha
    have hbq : b ≠ q := fun h => q2 a h0 ha (by rw [← b2, h])
    rcases lt_or_gt_of_ne hbq with h | h
    · exact ⟨b, b0, by omega, by simp only [ht]; rw [if_pos h, b2]⟩
    · exact ⟨b - 1, by omega, by omega, by simp only [ht]; rw [if_neg (by omega)]; rw [← b2]; congr 1; ring⟩
  have htc : ∀ b, 0 ≤ b → b < d → ∃ a, 0 ≤ a ∧ a < d ∧ c a = t b := by
    classical
    set C := (range d.toNat).image (fun k : ℕ => c k) with hC
    set D := (range d.toNat).image (fun k : ℕ => t k) with hD
    have cardOf : ∀ f : ℤ → ℤ, Incr f d → ((range d.toNat).image (fun k : ℕ => f k)).card = d.toNat := by
      intro f hf
      rw [card_image_of_injOn, card_range]
      intro a ha b hb hab
      have ha' := mem_range.1 (mem_coe.1 ha); have hb' := mem_range.1 (mem_coe.1 hb)
      have := incr_inj hf (i := a) (j := b) (by omega) (by omega) (by omega) (by omega) hab
      omega
    have hCD : C ⊆ D := by
      intro x hx
      obtain ⟨k, hk, rfl⟩ := mem_image.1 hx
      have hk' := mem_range.1 hk
      obtain ⟨b, b0, b1, b2⟩ := hct k (by omega) (by omega)
      refine mem_image.2 ⟨b.toNat, mem_range.2 (by omega), ?_⟩
      rw [Int.toNat_of_nonneg b0, b2]
    have hEq : C = D := eq_of_subset_of_card_le hCD (by rw [hD, hC, cardOf t hti, cardOf c hc])
    intro b b0 b1
    have : t b ∈ D := mem_image.2 ⟨b.toNat, mem_range.2 (by omega), by rw [Int.toNat_of_nonneg b0]⟩
    rw [← hEq] at this
    obtain ⟨k, hk, hk2⟩ := mem_image.1 this
    have hk' := mem_range.1 hk
    exact ⟨k, by omega, by omega, hk2⟩
  have := (incr_unique c t d d hd hd hc hti hct htc).2
  intro a h0 ha
  rw [this a h0 ha]

/-- u: increasing enumeration (k entries) of the common entries of c and s -/
theorem facet_intersection (c s u : ℤ → ℤ) (d k : ℤ) (hd : 0 ≤ d) (hk : 0 ≤ k) (hc : Incr c d) (hs : Incr s (d + 1)) (hu : Incr u k)
    (hu1 : ∀ i, 0 ≤ i → i < k → (∃ a, 0 ≤ a ∧ a < d ∧ c a = u i) ∧ ∃ b, 0 ≤ b ∧ b < d + 1 ∧ s b = u i)
    (hu2 : ∀ x, (∃ a, 0 ≤ a ∧ a < d ∧ c a = x) → (∃ b, 0 ≤ b ∧ b < d + 1 ∧ s b = x) → ∃ i, 0 ≤ i ∧ i < k ∧ u i = x) :
    k = d ↔ ∃ q, Omits c s d q := by
  classical
  have cardOf : ∀ (f : ℤ → ℤ) (n : ℤ), Incr f n → ((range n.toNat).image (fun k : ℕ => f k)).card = n.toNat := by
    intro f n hf
    rw [card_image_of_injOn, card_range]
    intro a ha b hb hab
    have ha' := mem_range.1 (mem_coe.1 ha); have hb' := mem_range.1 (mem_coe.1 hb)
    have := incr_inj hf (i := a) (j := b) (by omega) (by omega) (by omega) (by omega) hab
    omega
  constructor
  · intro hkd
    refine omit_of_subset c s d hd hc hs ?_
    have hUC : (range k.toNat).image (fun i : ℕ => u i) = (range d.toNat).image (fun i : ℕ => c i) := by
      refine eq_of_subset_of_card_le ?_ (by rw [cardOf u k hu, cardOf c d hc, hkd])
      intro x hx
      obtain ⟨i, hi, rfl⟩ := mem_image.1 hx
      have := mem_range.1 hi
      obtain ⟨⟨a, a0, a1, a2⟩, _⟩ := hu1 i (by omega) (by omega)
      exact mem_image.2 ⟨a.toNat, mem_range.2 (by omega), by rw [Int.toNat_of_nonneg a0, a2]⟩
    intro a h0 ha
    have : c a ∈ (range k.toNat).image (fun i : ℕ => u i) := by
      rw [hUC]; exact mem_image.2 ⟨a.toNat, mem_range.2 (by omega), by rw [Int.toNat_of_nonneg h0]⟩
    obtain ⟨i, hi, hi2⟩ := mem_image.1 this
    have := mem_range.1 hi
    obtain ⟨_, b, b0, b1, b2⟩ := hu1 i (by omega) (by omega)
    exact ⟨b, b0, b1, by rw [b2]; exact hi2⟩
  · rintro ⟨q, q0, q1, q2⟩
    refine (incr_unique u c k d hk hd hu hc ?_ ?_).1
    · intro i h0 hi
      exact (hu1 i h0 hi).1
    · intro a h0 ha
      refine hu2 (c a) ⟨a, h0, ha, rfl⟩ ?_
      rw [q2 a h0 ha]
      split_ifs with h
      · exact ⟨a, h0, by omega, rfl⟩
      · exact ⟨a + 1, by omega, by omega, rfl⟩

/-- the omitted entry is the only one of s that is not in c -/
theorem facet_difference (c s u : ℤ → ℤ) (d k q : ℤ) (hk : 0 ≤ k) (hs : Incr s (d + 1)) (hu : Incr u k)
    (hq : Omits c s d q)
    (hu1 : ∀ i, 0 ≤ i → i < k → (∃ b, 0 ≤ b ∧ b < d + 1 ∧ s b = u i) ∧ ¬ ∃ a, 0 ≤ a ∧ a < d ∧ c a = u i)
    (hu2 : ∀ x, (∃ b, 0 ≤ b ∧ b < d + 1 ∧ s b = x) → (¬ ∃ a, 0 ≤ a ∧ a < d ∧ c a = x) → ∃ i, 0 ≤ i ∧ i < k ∧ u i = x) :
    k = 1 ∧ u 0 = s q := by
  obtain ⟨q0, q1, q2⟩ := hq
  have hnot : ¬ ∃ a, 0 ≤ a ∧ a < d ∧ c a = s q := by
    rintro ⟨a, a0, a1, a2⟩
    rw [q2 a a0 a1] at a2
    split_ifs at a2 with h
    · have := hs a q a0 h (by omega); omega
    · have := hs q (a + 1) q0 (by omega) (by omega); omega
  have honly : ∀ b, 0 ≤ b → b < d + 1 → (¬ ∃ a, 0 ≤ a ∧ a < d ∧ c a = s b) → b = q := by
    intro b b0 b1 hb
    rcases lt_trichotomy b q with h | h | h
    · exact absurd ⟨b, b0, by omega, by rw [q2 b b0 (by omega), if_pos h]⟩ hb
    · exact h
    · refine absurd ⟨b - 1, by omega, by omega, ?_⟩ hb
      rw [q2 (b - 1) (by omega) (by omega), if_neg (by omega)]; congr 1; ring
  have := incr_unique u (fun _ => s q) k 1 hk (by norm_num) hu (fun i j _ _ _ => by omega) (by
    intro i h0 hi
    obtain ⟨⟨b, b0, b1, b2⟩, hn⟩ := hu1 i h0 hi
    have := honly b b0 b1 (by rw [b2]; exact hn)
    exact ⟨0, le_refl _, by norm_num, by rw [← b2, this]⟩) (by
    intro j h0 hj
    exact hu2 (s q) ⟨q, q0, by omega, rfl⟩ hnot)
  exact ⟨this.1, this.2 0 (le_refl _) (by omega)⟩

theorem square_mono (a b : ℝ) (h0 : 0 ≤ a) (h : a ≤ b) : a * a ≤ b * b := mul_self_le_mul_self h0 h

/-- Euclidean norm of the first n entries -/
noncomputable def rnorm (v : ℤ → ℝ) (n : ℤ) : ℝ := Real.sqrt (∑ i ∈ range n.toNat, v i ^ 2)

theorem norm_ext (z a : ℤ → ℝ) (d : ℤ) (h : ∀ j, 0 ≤ j → j < d → z j = a j) : rnorm z d = rnorm a d := by
  unfold rnorm
  congr 1
  refine sum_congr rfl fun i hi => ?_
  have := mem_range.1 hi
  rw [h i (by omega) (by omega)]

theorem norm_scale (z m : ℤ → ℝ) (d : ℤ) (r : ℝ) (hm : 0 < rnorm m d) (hr : 0 ≤ r)
    (h : ∀ j, 0 ≤ j → j < d → z j = r * m j / rnorm m d) : rnorm z d = r := by
  have h1 : ∑ i ∈ range d.toNat, z i ^ 2 = r ^ 2 := by
    have e : ∑ i ∈ range d.toNat, z i ^ 2 = ∑ i ∈ range d.toNat, (r / rnorm m d) ^ 2 * m i ^ 2 := by
      refine sum_congr rfl fun i hi => ?_
      have := mem_range.1 hi
      rw [h i (by omega) (by omega)]; ring
    have s : ∑ i ∈ range d.toNat, m i ^ 2 = rnorm m d ^ 2 := by
      unfold rnorm
      rw [Real.sq_sqrt (sum_nonneg fun i _ => sq_nonneg _)]
    rw [e, ← mul_sum, s, div_pow, div_mul_cancel₀]
    exact pow_ne_zero 2 (ne_of_gt hm)
  unfold rnorm
  rw [h1, Real.sqrt_sq hr]

theorem row_major (i j v i0 j0 : ℤ) (hi : 0 ≤ i) (hj0 : 0 ≤ j) (hj : j < v) (h : i < i0 ∨ (i = i0 ∧ j < j0)) (hj00 : 0 ≤ j0) :
    0 ≤ i * v + j ∧ i * v + j < i0 * v + j0 := by
  constructor
  · have := mul_nonneg hi (by omega : (0:ℤ) ≤ v); omega
  · rcases h with h | ⟨h, h2⟩
    · have : (i + 1) * v ≤ i0 * v := mul_le_mul_of_nonneg_right (by omega) (by omega)
      linarith [this, add_mul i 1 v]
    · subst h; omega

theorem row_major_3 (i j k v d i0 j0 k0 : ℤ) (hi : 0 ≤ i) (hj0 : 0 ≤ j) (hj : j < v) (hk0 : 0 ≤ k) (hk : k < d)
    (hj00 : 0 ≤ j0) (hk00 : 0 ≤ k0)
    (h : i < i0 ∨ (i = i0 ∧ (j < j0 ∨ (j = j0 ∧ k < k0)))) :
    0 ≤ (i * v + j) * d + k ∧ (i * v + j) * d + k < (i0 * v + j0) * d + k0 := by
  have hv : 0 ≤ i * v := mul_nonneg hi (by omega)
  refine row_major (i * v + j) k d (i0 * v + j0) k0 (by omega) hk0 hk ?_ hk00
  rcases h with h | ⟨h, h2 | ⟨h2, h3⟩⟩
  · exact Or.inl (row_major i j v i0 j0 hi hj0 hj (Or.inl h) hj00).2
  · exact Or.inl (by subst h; omega)
  · exact Or.inr ⟨by subst h; subst h2; rfl, h3⟩

/-- in_torus x y z R r -/
def InTorus (x y z R r : ℝ) : Prop := (Real.sqrt (x ^ 2 + y ^ 2) - R) ^ 2 + z ^ 2 = r ^ 2

theorem torus_point (x y z R r t u : ℝ) (hr : 0 ≤ r) (hR : r ≤ R) (hx : x = (R + r * Real.cos t) * Real.cos u)
    (hy : y = (R + r * Real.cos t) * Real.sin u) (hz : z = r * Real.sin t) : InTorus x y z R r := by
  have h1 : x ^ 2 + y ^ 2 = (R + r * Real.cos t) ^ 2 := by
    rw [hx, hy]
    have := Real.sin_sq_add_cos_sq u
    linear_combination (R + r * Real.cos t) ^ 2 * this
  have h2 : 0 ≤ R + r * Real.cos t := by
    have := Real.neg_one_le_cos t
    nlinarith
  unfold InTorus
  rw [h1, Real.sqrt_sq h2, hz]
  have := Real.sin_sq_add_cos_sq t
  linear_combination r ^ 2 * this

theorem pigeonhole (s : ℤ → ℤ) (m n : ℤ) (hm : 0 ≤ m) (hmn : m < n) :
    ∃ w, 0 ≤ w ∧ w < n ∧ ∀ j, 0 ≤ j → j < m → s j ≠ w := by
  classical
  by_contra hcon
  push Not at hcon
  have hsub : (range n.toNat).image (fun k : ℕ => (k : ℤ)) ⊆ (range m.toNat).image (fun k : ℕ => s k) := by
    intro x hx
    obtain ⟨k, hk, rfl⟩ := mem_image.1 hx
    have := mem_range.1 hk
    obtain ⟨j, j0, j1, j2⟩ := hcon k (by omega) (by omega)
    exact mem_image.2 ⟨j.toNat, mem_range.2 (by omega), by rw [Int.toNat_of_nonneg j0, j2]⟩
  have h1 := card_le_card hsub
  have h2 : ((range n.toNat).image (fun k : ℕ => (k : ℤ))).card = n.toNat := by
    rw [card_image_of_injective _ Nat.cast_injective, card_range]
  have h3 : ((range m.toNat).image (fun k : ℕ => s k)).card ≤ m.toNat := by
    simpa using card_image_le (s := range m.toNat) (f := fun k : ℕ => s k)
  omega

/-- an injection of `[0, h)` into `[0, m)` that misses `x`: there is room for one more -/
theorem pigeonhole_room (s : ℤ → ℤ) (h m x : ℤ) (hh : 0 ≤ h) (hx : 0 ≤ x ∧ x < m)
    (h1 : ∀ a, 0 ≤ a → a < h → (0 ≤ s a ∧ s a < m) ∧ s a ≠ x)
    (h2 : ∀ a b, 0 ≤ a → a < b → b < h → s a ≠ s b) : h < m := by
  classical
  have hinj : Set.InjOn (fun k : ℕ => s k) (range h.toNat : Set ℕ) := by
    intro a ha b hb hab
    have ha' := mem_range.1 (mem_coe.1 ha)
    have hb' := mem_range.1 (mem_coe.1 hb)
    rcases lt_trichotomy a b with c | c | c
    · exact absurd hab (h2 a b (by omega) (by omega) (by omega))
    · exact c
    · exact absurd hab.symm (h2 b a (by omega) (by omega) (by omega))
  have hsub : (range h.toNat).image (fun k : ℕ => s k) ⊆ ((range m.toNat).image (fun k : ℕ => (k : ℤ))).erase x := by
    intro y hy
    obtain ⟨k, hk, rfl⟩ := mem_image.1 hy
    have := mem_range.1 hk
    obtain ⟨⟨c, d⟩, e⟩ := h1 k (by omega) (by omega)
    exact mem_erase.2 ⟨e, mem_image.2 ⟨(s k).toNat, mem_range.2 (by omega), by rw [Int.toNat_of_nonneg c]⟩⟩
  have h3 := card_le_card hsub
  rw [card_image_of_injOn hinj, card_range, card_erase_of_mem (mem_image.2 ⟨x.toNat, mem_range.2 (by omega),
    by rw [Int.toNat_of_nonneg hx.1]⟩), card_image_of_injective _ Nat.cast_injective, card_range] at h3
  omega

end PMV
