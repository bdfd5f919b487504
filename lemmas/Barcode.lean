import Mathlib
/-! From the reduced matrices to the barcode (C11). The chain groups of degrees `e + 1`, `e`, `e - 1` are
`Fin n' → K`, `Fin n → K`, `Fin m → K` with `K = ZMod p`; `d'`, `d` are the differentials, the columns are in the
order of their radii `r'`, `r`. The postconditions of `persistent_homology` (contracts/homology.py) say: the columns
`R k` are `d (T k)` with `T` unit upper triangular for the columns that are not cleared, cleared columns are zero,
nonzero columns have distinct pivots (last nonzero rows), and `kp k` is the column of degree `e + 1` with pivot `k`.
Then the rank of `H_e(K_s) → H_e(K_t)` is the number of bars born until `s` that are alive at `t`. -/
namespace PMV
open Finset Module

variable {K : Type*} [Field K]

/-- `x` is led by position `l`: its last nonzero entry -/
def Lead {n : ℕ} (x : Fin n → K) (l : Fin n) : Prop := x l ≠ 0 ∧ ∀ i, l < i → x i = 0

/-- chains supported where `P` holds -/
def Sup {n : ℕ} (K : Type*) [Field K] (P : Fin n → Prop) : Submodule K (Fin n → K) where
  carrier := {x | ∀ i, ¬ P i → x i = 0}
  zero_mem' := fun _ _ => rfl
  add_mem' := fun ha hb i hi => by simp [ha i hi, hb i hi]
  smul_mem' := fun c x hx i hi => by simp [hx i hi]

theorem mem_sup {n : ℕ} {P : Fin n → Prop} {x : Fin n → K} : x ∈ Sup K P ↔ ∀ i, ¬ P i → x i = 0 := Iff.rfl

theorem lead_sup {n : ℕ} {P : Fin n → Prop} (hP : ∀ i j, i ≤ j → P j → P i) {x : Fin n → K} {l : Fin n}
    (h : Lead x l) (hl : P l) : x ∈ Sup K P := by
  intro i hi
  rcases lt_or_ge l i with h1 | h1
  · exact h.2 i h1
  · exact absurd (hP i l h1 hl) hi

/-- a combination of vectors with distinct leads is supported below `P` only if the leads are -/
theorem comb_lead {ι : Type*} [Fintype ι] {n : ℕ} (v : ι → Fin n → K) (l : ι → Fin n) (hl : Function.Injective l)
    (hv : ∀ i, Lead (v i) (l i)) (c : ι → K) (P : Fin n → Prop) (hP : ∀ i j, i ≤ j → P j → P i)
    (h : ∑ i, c i • v i ∈ Sup K P) : ∀ i, c i ≠ 0 → P (l i) := by
  classical
  intro i0 hi0
  obtain ⟨j, hj, hmax⟩ := (univ.filter (fun i => c i ≠ 0)).exists_max_image l ⟨i0, by simp [hi0]⟩
  have hcj : c j ≠ 0 := (mem_filter.1 hj).2
  have hval : (∑ i, c i • v i) (l j) = c j * v j (l j) := by
    rw [Finset.sum_apply, sum_eq_single j]
    · simp
    · intro k _ hk
      by_cases hc : c k = 0
      · simp [hc]
      · have h1 := hmax k (by simp [hc])
        have h2 : l k < l j := lt_of_le_of_ne h1 (fun e => hk (hl e))
        simp [(hv k).2 _ h2]
    · intro hh; exact absurd (mem_univ j) hh
  have hPj : P (l j) := by
    by_contra hn
    have := h (l j) hn
    rw [hval] at this
    exact (mul_ne_zero hcj (hv j).1) this
  exact hP _ _ (hmax i0 (by simp [hi0])) hPj

theorem lead_indep {ι : Type*} [Fintype ι] {n : ℕ} (v : ι → Fin n → K) (l : ι → Fin n) (hl : Function.Injective l)
    (hv : ∀ i, Lead (v i) (l i)) : LinearIndependent K v := by
  rw [Fintype.linearIndependent_iff]
  intro c hc i
  by_contra hn
  exact comb_lead v l hl hv c (fun _ => False) (fun _ _ _ h => h) (by rw [hc]; exact Submodule.zero_mem _) i hn

/-- triangular vectors span the chains supported below `P` -/
theorem span_triangular {n : ℕ} (t : Fin n → Fin n → K) (ht : ∀ k, Lead (t k) k) (P : Fin n → Prop)
    (hP : ∀ i j, i ≤ j → P j → P i) (x : Fin n → K) (hx : x ∈ Sup K P) :
    ∃ c : Fin n → K, x = ∑ k, c k • t k ∧ ∀ k, c k ≠ 0 → P k := by
  classical
  have hind := lead_indep t id Function.injective_id ht
  have hspan : Submodule.span K (Set.range t) = ⊤ :=
    hind.span_eq_top_of_card_eq_finrank' (by simp)
  have hmem : x ∈ Submodule.span K (Set.range t) := by rw [hspan]; trivial
  obtain ⟨c, hc⟩ := (Submodule.mem_span_range_iff_exists_fun K).1 hmem
  refine ⟨c, hc.symm, ?_⟩
  exact comb_lead t id Function.injective_id ht c P hP (by rw [hc]; exact hx)

/-- cycles: the triangular vectors with zero boundary -/
theorem reduced_kernel {n m : ℕ} (d : (Fin n → K) →ₗ[K] (Fin m → K)) (t : Fin n → Fin n → K) (ht : ∀ k, Lead (t k) k)
    (pv : Fin n → Option (Fin m)) (h0 : ∀ k, pv k = none → d (t k) = 0) (h1 : ∀ k b, pv k = some b → Lead (d (t k)) b)
    (hd : ∀ k l b, pv k = some b → pv l = some b → k = l)
    (P : Fin n → Prop) [DecidablePred P] (hP : ∀ i j, i ≤ j → P j → P i) :
    finrank K (LinearMap.ker d ⊓ Sup K P : Submodule K (Fin n → K)) = (univ.filter (fun k => pv k = none ∧ P k)).card := by
  classical
  let ι := {k : Fin n // pv k = none ∧ P k}
  let v : ι → Fin n → K := fun k => t k.1
  have hind : LinearIndependent K v := lead_indep v (fun k => k.1) Subtype.val_injective (fun k => ht k.1)
  have hspan : (LinearMap.ker d ⊓ Sup K P : Submodule K (Fin n → K)) = Submodule.span K (Set.range v) := by
    apply le_antisymm
    · rintro x ⟨hx, hs⟩
      obtain ⟨c, rfl, hc⟩ := span_triangular t ht P hP x hs
      have hsum : ∑ k, c k • d (t k) = 0 := by
        have := LinearMap.mem_ker.1 hx
        simpa [map_sum] using this
      -- nonzero columns are independent
      have hz : ∀ k b, pv k = some b → c k = 0 := by
        let κ := {k : Fin n // ∃ b, pv k = some b}
        have hi : LinearIndependent K (fun k : κ => d (t k.1)) := by
          refine lead_indep _ (fun k : κ => k.2.choose) ?_ (fun k => h1 _ _ k.2.choose_spec)
          intro a b hab
          have ha := a.2.choose_spec
          have hb := b.2.choose_spec
          exact Subtype.ext (hd a.1 b.1 _ ha (by rw [hb]; exact congrArg some hab.symm))
        rw [Fintype.linearIndependent_iff] at hi
        intro k b hk
        refine hi (fun k => c k.1) ?_ ⟨k, b, hk⟩
        rw [← hsum]
        have : ∀ k : Fin n, k ∉ univ.filter (fun k => ∃ b, pv k = some b) → c k • d (t k) = 0 := by
          intro k hk
          have : pv k = none := by
            rcases hp : pv k with _ | b
            · rfl
            · exact absurd (by simp [hp]) hk
          simp [h0 k this]
        rw [← sum_subset (subset_univ (univ.filter (fun k => ∃ b, pv k = some b))) (fun k _ hk => this k hk)]
        exact (sum_subtype _ (by simp) (fun k => c k • d (t k))).symm
      refine Submodule.sum_mem _ fun k _ => ?_
      by_cases hck : c k = 0
      · simp [hck]
      · refine Submodule.smul_mem _ _ (Submodule.subset_span ⟨⟨k, ?_, hc k hck⟩, rfl⟩)
        rcases hp : pv k with _ | b
        · rfl
        · exact absurd (hz k b hp) hck
    · rw [Submodule.span_le]
      rintro _ ⟨k, rfl⟩
      exact ⟨LinearMap.mem_ker.2 (h0 _ k.2.1), lead_sup hP (ht k.1) k.2.2⟩
  rw [hspan, finrank_span_eq_card hind, Fintype.card_subtype]

/-- boundaries of the simplices of `P'` supported below `P` -/
theorem reduced_image {n n' : ℕ} (d' : (Fin n' → K) →ₗ[K] (Fin n → K)) (t : Fin n' → Fin n' → K) (ht : ∀ k, Lead (t k) k)
    (pv : Fin n' → Option (Fin n)) (h0 : ∀ k, pv k = none → d' (t k) = 0) (h1 : ∀ k b, pv k = some b → Lead (d' (t k)) b)
    (hd : ∀ k l b, pv k = some b → pv l = some b → k = l)
    (P' : Fin n' → Prop) [DecidablePred P'] (hP' : ∀ i j, i ≤ j → P' j → P' i)
    (P : Fin n → Prop) [DecidablePred P] (hP : ∀ i j, i ≤ j → P j → P i) :
    finrank K (Submodule.map d' (Sup K P') ⊓ Sup K P : Submodule K (Fin n → K)) =
      (univ.filter (fun k => ∃ b, pv k = some b ∧ P' k ∧ P b)).card := by
  classical
  let ι := {k : Fin n' // ∃ b, pv k = some b ∧ P' k ∧ P b}
  let v : ι → Fin n → K := fun k => d' (t k.1)
  have hind : LinearIndependent K v := by
    refine lead_indep v (fun k : ι => k.2.choose) ?_ (fun k => h1 _ _ k.2.choose_spec.1)
    intro a b hab
    exact Subtype.ext (hd a.1 b.1 _ a.2.choose_spec.1 (by rw [b.2.choose_spec.1]; exact congrArg some hab.symm))
  have hspan : (Submodule.map d' (Sup K P') ⊓ Sup K P : Submodule K (Fin n → K)) = Submodule.span K (Set.range v) := by
    apply le_antisymm
    · rintro x ⟨⟨y, hy, rfl⟩, hs⟩
      obtain ⟨c, rfl, hc⟩ := span_triangular t ht P' hP' y hy
      let κ := {k : Fin n' // ∃ b, pv k = some b}
      have hsum : d' (∑ k, c k • t k) = ∑ k : κ, c k.1 • d' (t k.1) := by
        have : ∀ k : Fin n', k ∉ univ.filter (fun k => ∃ b, pv k = some b) → c k • d' (t k) = 0 := by
          intro k hk
          have : pv k = none := by
            rcases hp : pv k with _ | b
            · rfl
            · exact absurd (by simp [hp]) hk
          simp [h0 k this]
        rw [map_sum]
        simp only [map_smul]
        rw [← sum_subset (subset_univ (univ.filter (fun k => ∃ b, pv k = some b))) (fun k _ hk => this k hk)]
        exact sum_subtype _ (by simp) (fun k => c k • d' (t k))
      rw [hsum]
      have hlead := comb_lead (fun k : κ => d' (t k.1)) (fun k : κ => k.2.choose) (by
        intro a b hab
        exact Subtype.ext (hd a.1 b.1 _ a.2.choose_spec (by rw [b.2.choose_spec]; exact congrArg some hab.symm)))
        (fun k => h1 _ _ k.2.choose_spec) (fun k => c k.1) P hP (by rw [← hsum]; exact hs)
      refine Submodule.sum_mem _ fun k _ => ?_
      by_cases hck : c k.1 = 0
      · simp [hck]
      · exact Submodule.smul_mem _ _ (Submodule.subset_span
          ⟨⟨k.1, k.2.choose, k.2.choose_spec, hc _ hck, hlead k hck⟩, rfl⟩)
    · rw [Submodule.span_le]
      rintro _ ⟨k, rfl⟩
      obtain ⟨b, hb, h2, h3⟩ := k.2
      exact ⟨⟨t k.1, lead_sup hP' (ht k.1) h2, rfl⟩, lead_sup hP (h1 _ _ hb) h3⟩
  rw [hspan, finrank_span_eq_card hind, Fintype.card_subtype]

/-- cleared columns: the reduced column of the next degree with this pivot takes the place of the column of `T` -/
theorem clearing {n n' m : ℕ} (d : (Fin n → K) →ₗ[K] (Fin m → K)) (d' : (Fin n' → K) →ₗ[K] (Fin n → K))
    (hdd : d ∘ₗ d' = 0) (T : Fin n → Fin n → K) (R : Fin n → Fin m → K) (kp : Fin n → Option (Fin n'))
    (hT : ∀ k, Lead (T k) k) (hR : ∀ k, kp k = none → d (T k) = R k) (hc : ∀ k, kp k ≠ none → R k = 0)
    (R' : Fin n' → Fin n → K) (hR' : ∀ k, ∃ x, d' x = R' k) (hk : ∀ k k', kp k = some k' → Lead (R' k') k) :
    ∃ t : Fin n → Fin n → K, (∀ k, Lead (t k) k) ∧ ∀ k, d (t k) = R k := by
  classical
  refine ⟨fun k => match kp k with | none => T k | some k' => R' k', fun k => ?_, fun k => ?_⟩
  · rcases hp : kp k with _ | k'
    · simpa [hp] using hT k
    · simpa [hp] using hk k k' hp
  · rcases hp : kp k with _ | k'
    · simpa [hp] using hR k hp
    · have h1 : R k = 0 := hc k (by simp [hp])
      obtain ⟨x, hx⟩ := hR' k'
      have h2 : d (d' x) = 0 := by simpa using LinearMap.congr_fun hdd x
      simp only [hp]
      rw [h1, ← hx, h2]

/-- rank of `H(K_s) → H(K_t)`: bars born until `s` and alive at `t` -/
theorem barcode_rank {n n' m : ℕ} (d : (Fin n → K) →ₗ[K] (Fin m → K)) (d' : (Fin n' → K) →ₗ[K] (Fin n → K))
    (hdd : d ∘ₗ d' = 0) (r : Fin n → ℝ) (r' : Fin n' → ℝ) (hr : Monotone r) (hr' : Monotone r')
    (R : Fin n → Fin m → K) (R' : Fin n' → Fin n → K)
    (hT : ∃ t : Fin n → Fin n → K, (∀ k, Lead (t k) k) ∧ ∀ k, d (t k) = R k)
    (hT' : ∃ t : Fin n' → Fin n' → K, (∀ k, Lead (t k) k) ∧ ∀ k, d' (t k) = R' k)
    (pv : Fin n → Option (Fin m)) (pv' : Fin n' → Option (Fin n))
    (h0 : ∀ k, pv k = none → R k = 0) (h1 : ∀ k b, pv k = some b → Lead (R k) b)
    (hd : ∀ k l b, pv k = some b → pv l = some b → k = l)
    (h0' : ∀ k, pv' k = none → R' k = 0) (h1' : ∀ k b, pv' k = some b → Lead (R' k) b)
    (hd' : ∀ k l b, pv' k = some b → pv' l = some b → k = l)
    (kp : Fin n → Option (Fin n')) (hkp : ∀ k k', kp k = some k' ↔ pv' k' = some k)
    (hcl : ∀ k, kp k ≠ none → pv k = none) (s t : ℝ) (hst : s ≤ t) :
    finrank K (Submodule.map (Submodule.map d' (Sup K fun k => r' k ≤ t)).mkQ
        (LinearMap.ker d ⊓ Sup K fun k => r k ≤ s : Submodule K (Fin n → K))) =
      (univ.filter (fun k => (kp k = none ∧ pv k = none) ∧ r k ≤ s)).card +
      (univ.filter (fun k' => ∃ b, pv' k' = some b ∧ r b < r' k' ∧ r b ≤ s ∧ t < r' k')).card := by
  classical
  obtain ⟨τ, hτ, hτR⟩ := hT
  obtain ⟨τ', hτ', hτR'⟩ := hT'
  have hP : ∀ i j : Fin n, i ≤ j → r j ≤ s → r i ≤ s := fun i j h h2 => (hr h).trans h2
  have hP' : ∀ i j : Fin n', i ≤ j → r' j ≤ t → r' i ≤ t := fun i j h h2 => (hr' h).trans h2
  set Z : Submodule K (Fin n → K) := LinearMap.ker d ⊓ Sup K (fun k => r k ≤ s) with hZ
  set Bt : Submodule K (Fin n → K) := Submodule.map d' (Sup K fun k => r' k ≤ t) with hB
  have kZ := reduced_kernel d τ hτ pv (fun k h => by rw [hτR, h0 k h]) (fun k b h => by rw [hτR]; exact h1 k b h) hd
    (fun k => r k ≤ s) hP
  have kB := reduced_image d' τ' hτ' pv' (fun k h => by rw [hτR', h0' k h]) (fun k b h => by rw [hτR']; exact h1' k b h) hd'
    (fun k => r' k ≤ t) hP' (fun k => r k ≤ s) hP
  have hBk : Bt ≤ LinearMap.ker d := by
    rintro _ ⟨x, _, rfl⟩
    exact LinearMap.mem_ker.2 (by simpa using LinearMap.congr_fun hdd x)
  have hZB : Bt ⊓ Sup K (fun k => r k ≤ s) = Z ⊓ Bt := by
    rw [hZ]
    apply le_antisymm
    · rintro x ⟨a, b⟩; exact ⟨⟨hBk a, b⟩, a⟩
    · rintro x ⟨⟨_, b⟩, c⟩; exact ⟨c, b⟩
  -- rank of the map
  have hrank : finrank K (Submodule.map Bt.mkQ Z) + finrank K (Z ⊓ Bt : Submodule K (Fin n → K)) = finrank K Z := by
    have h := LinearMap.finrank_range_add_finrank_ker (Bt.mkQ.domRestrict Z)
    have h2 : LinearMap.range (Bt.mkQ.domRestrict Z) = Submodule.map Bt.mkQ Z := by
      rw [LinearMap.range_domRestrict]
    have h3 : finrank K (LinearMap.ker (Bt.mkQ.domRestrict Z)) = finrank K (Z ⊓ Bt : Submodule K (Fin n → K)) := by
      have : Submodule.map Z.subtype (LinearMap.ker (Bt.mkQ.domRestrict Z)) = Z ⊓ Bt := by
        ext x
        constructor
        · rintro ⟨y, hy, rfl⟩
          refine ⟨y.2, ?_⟩
          have := LinearMap.mem_ker.1 hy
          simpa using this
        · rintro ⟨a, b⟩
          exact ⟨⟨x, a⟩, by simpa using b, rfl⟩
      rw [← this]
      exact (Submodule.finrank_map_subtype_eq Z _).symm
    rw [← h2, ← h3]; exact h
  -- counting
  rw [hZB] at kB
  have c1 : (univ.filter (fun k => pv k = none ∧ r k ≤ s)).card =
      (univ.filter (fun k => (kp k = none ∧ pv k = none) ∧ r k ≤ s)).card +
      (univ.filter (fun k' => ∃ b, pv' k' = some b ∧ r b ≤ s)).card := by
    have e1 : univ.filter (fun k => pv k = none ∧ r k ≤ s) =
        univ.filter (fun k => (kp k = none ∧ pv k = none) ∧ r k ≤ s) ∪ univ.filter (fun k => kp k ≠ none ∧ r k ≤ s) := by
      ext k
      simp only [mem_filter, mem_univ, true_and, mem_union]
      constructor
      · rintro ⟨a, b⟩
        by_cases h : kp k = none
        · exact Or.inl ⟨⟨h, a⟩, b⟩
        · exact Or.inr ⟨h, b⟩
      · rintro (⟨⟨_, a⟩, b⟩ | ⟨a, b⟩)
        · exact ⟨a, b⟩
        · exact ⟨hcl k a, b⟩
    have dis : Disjoint (univ.filter (fun k => (kp k = none ∧ pv k = none) ∧ r k ≤ s))
        (univ.filter (fun k => kp k ≠ none ∧ r k ≤ s)) := by
      rw [disjoint_left]
      intro k a b
      simp only [mem_filter, mem_univ, true_and] at a b
      exact b.1 a.1.1
    rw [e1, card_union_of_disjoint dis]
    congr 1
    refine card_bij (fun k hk => (kp k).get (by
      have := (mem_filter.1 hk).2.1
      exact Option.isSome_iff_ne_none.2 this)) ?_ ?_ ?_
    · intro k hk
      have h2 := (mem_filter.1 hk).2
      obtain ⟨k', hk'⟩ := Option.ne_none_iff_exists'.1 h2.1
      simp only [hk', Option.get_some, mem_filter, mem_univ, true_and]
      exact ⟨k, (hkp k k').1 hk', h2.2⟩
    · intro a ha b hb hab
      obtain ⟨a', ha'⟩ := Option.ne_none_iff_exists'.1 (mem_filter.1 ha).2.1
      obtain ⟨b', hb'⟩ := Option.ne_none_iff_exists'.1 (mem_filter.1 hb).2.1
      simp only [ha', hb', Option.get_some] at hab
      subst hab
      have := (hkp a a').1 ha'
      have h3 := (hkp b a').1 hb'
      rw [this] at h3
      exact Option.some.inj h3
    · intro k' hk'
      obtain ⟨b, hb, hbs⟩ := (mem_filter.1 hk').2
      have := (hkp b k').2 hb
      refine ⟨b, by simp [this, hbs], by simp [this]⟩
  have c2 : (univ.filter (fun k' => ∃ b, pv' k' = some b ∧ r b ≤ s)).card =
      (univ.filter (fun k' => ∃ b, pv' k' = some b ∧ r b < r' k' ∧ r b ≤ s ∧ t < r' k')).card +
      (univ.filter (fun k' => ∃ b, pv' k' = some b ∧ r' k' ≤ t ∧ r b ≤ s)).card := by
    rw [← card_union_of_disjoint]
    · congr 1
      ext k
      simp only [mem_filter, mem_univ, true_and, mem_union]
      constructor
      · rintro ⟨b, a, c⟩
        rcases lt_or_ge t (r' k) with h | h
        · exact Or.inl ⟨b, a, lt_of_le_of_lt (c.trans hst) h, c, h⟩
        · exact Or.inr ⟨b, a, h, c⟩
      · rintro (⟨b, a, _, c, _⟩ | ⟨b, a, _, c⟩)
        · exact ⟨b, a, c⟩
        · exact ⟨b, a, c⟩
    · rw [disjoint_left]
      intro k a b
      simp only [mem_filter, mem_univ, true_and] at a b
      obtain ⟨_, _, _, _, h1⟩ := a
      obtain ⟨_, _, h2, _⟩ := b
      exact absurd h1 (not_lt.2 h2)
  have := hrank
  rw [kZ, kB, c1, c2] at this
  omega

end PMV
