import Mathlib
/-! Numbering of the positions of a grid (contracts/covers.py): `q` are the sides, `n` their number,
`str q n i` the product of the last `i` sides, `part q n p i` the sum of the last `i` coordinates of `p`, each
times its stride, `part q n p n` the number of `p`, `prod q i` the product of the first `i` sides and `pos q n i`
(`at` in the contracts) the position number `i`. -/
namespace PMV
open Finset

def str (q : ℤ → ℤ) (n : ℕ) : ℕ → ℤ
  | 0 => 1
  | i + 1 => str q n i * q (n - 1 - i)
def part (q : ℤ → ℤ) (n : ℕ) (p : ℤ → ℤ) : ℕ → ℤ
  | 0 => 0
  | i + 1 => part q n p i + p (n - 1 - i) * str q n i
def prod (q : ℤ → ℤ) : ℕ → ℤ
  | 0 => 1
  | i + 1 => prod q i * q i
def pos (q : ℤ → ℤ) (n : ℕ) (i : ℤ) : ℤ → ℤ := fun d => (i / str q n ((n : ℤ) - 1 - d).toNat) % q d

def SidesOk (q : ℤ → ℤ) (n : ℕ) : Prop := ∀ d : ℤ, 0 ≤ d → d < n → 1 ≤ q d
def InGrid (q : ℤ → ℤ) (n : ℕ) (p : ℤ → ℤ) : Prop := ∀ d : ℤ, 0 ≤ d → d < n → 0 ≤ p d ∧ p d < q d
/-- a is lexicographically before b -/
def Lex (a b : ℤ → ℤ) (n : ℕ) : Prop := ∃ w : ℤ, 0 ≤ w ∧ w < n ∧ a w < b w ∧ ∀ d, 0 ≤ d → d < w → a d = b d

variable (q : ℤ → ℤ) (n : ℕ)

theorem str_pos (hq : SidesOk q n) : ∀ i, i ≤ n → 1 ≤ str q n i := by
  intro i
  induction i with
  | zero => intro _; simp [str]
  | succ i ih =>
    intro hi
    have h1 := ih (by omega)
    have h2 := hq (n - 1 - i) (by omega) (by omega)
    simp only [str]
    nlinarith

theorem part_bounds (hq : SidesOk q n) (p : ℤ → ℤ) (hp : InGrid q n p) :
    ∀ i, i ≤ n → 0 ≤ part q n p i ∧ part q n p i < str q n i := by
  intro i
  induction i with
  | zero => intro _; simp [part, str]
  | succ i ih =>
    intro hi
    have h1 := ih (by omega)
    have h2 := hp (n - 1 - i) (by omega) (by omega)
    have h3 := str_pos q n hq i (by omega)
    simp only [part, str]
    constructor
    · nlinarith [mul_nonneg h2.1 (by omega : (0:ℤ) ≤ str q n i)]
    · nlinarith [mul_le_mul_of_nonneg_right (by omega : p (n - 1 - i) + 1 ≤ q (n - 1 - i)) (by omega : (0:ℤ) ≤ str q n i)]

theorem part_congr (a b : ℤ → ℤ) (k : ℕ) : ∀ m, k ≤ m → m ≤ n → (∀ d : ℤ, (n : ℤ) - m ≤ d → d < (n : ℤ) - k → a d = b d) →
    part q n a m - part q n a k = part q n b m - part q n b k := by
  intro m hkm
  induction m, hkm using Nat.le_induction with
  | base => intro _ _; simp
  | succ m hkm ih =>
    intro hm h
    have h1 := ih (by omega) (fun d h1 h2 => h d (by push_cast; omega) h2)
    have h2 := h (n - 1 - m) (by push_cast; omega) (by omega)
    simp only [part]
    rw [h2]; linarith

theorem number_of_equal (a b : ℤ → ℤ) (h : ∀ d : ℤ, 0 ≤ d → d < n → a d = b d) : part q n a n = part q n b n := by
  have := part_congr q n a b 0 n (by omega) (le_refl n) (fun d h1 h2 => h d (by omega) (by push_cast at h2; omega))
  simpa [part] using this

theorem number_additive (a b c : ℤ → ℤ) (h : ∀ d : ℤ, 0 ≤ d → d < n → c d = a d + b d) :
    part q n c n = part q n a n + part q n b n := by
  have key : ∀ m, m ≤ n → part q n c m = part q n a m + part q n b m := by
    intro m
    induction m with
    | zero => intro _; simp [part]
    | succ m ih =>
      intro hm
      simp only [part]
      rw [ih (by omega), h (n - 1 - m) (by omega) (by omega)]; ring
  exact key n (le_refl n)

theorem prod_of_equal (a b : ℤ → ℤ) (i : ℕ) (h : ∀ d : ℤ, 0 ≤ d → d < i → a d = b d) : prod a i = prod b i := by
  induction i with
  | zero => rfl
  | succ i ih =>
    simp only [prod]
    rw [ih (fun d h0 h1 => h d h0 (by push_cast; omega)), h i (by omega) (by push_cast; omega)]

theorem lex_lt (hq : SidesOk q n) (a b : ℤ → ℤ) (ha : InGrid q n a) (hb : InGrid q n b) (h : Lex a b n) :
    part q n a n < part q n b n := by
  obtain ⟨w, w0, w1, w2, w3⟩ := h
  set k : ℕ := n - 1 - w.toNat with hk
  have hkn : k < n := by omega
  have e : (n : ℤ) - 1 - k = w := by omega
  have hs := str_pos q n hq k (by omega)
  have h1 := part_bounds q n hq a ha k (by omega)
  have h2 := part_bounds q n hq b hb k (by omega)
  have h3 : part q n a (k + 1) < part q n b (k + 1) := by
    simp only [part]
    rw [e]
    nlinarith [mul_le_mul_of_nonneg_right (by omega : a w + 1 ≤ b w) (by omega : (0:ℤ) ≤ str q n k)]
  have h4 := part_congr q n a b (k + 1) n (by omega) (le_refl n) (fun d h1 h2 => w3 d (by omega) (by push_cast at h2; omega))
  linarith

theorem lex_trichotomy (a b : ℤ → ℤ) : (∀ d : ℤ, 0 ≤ d → d < n → a d = b d) ∨ Lex a b n ∨ Lex b a n := by
  by_cases h : ∃ d : ℕ, d < n ∧ a d ≠ b d
  · right
    classical
    have h1 := Nat.find_spec h
    have h2 := fun m (hm : m < Nat.find h) => Nat.find_min h hm
    set w := Nat.find h
    have h3 : ∀ d : ℤ, 0 ≤ d → d < w → a d = b d := by
      intro d d0 d1
      by_contra hc
      refine h2 d.toNat (by omega) ⟨by omega, ?_⟩
      rw [Int.toNat_of_nonneg d0]; exact hc
    rcases lt_or_gt_of_ne h1.2 with h4 | h4
    · exact Or.inl ⟨w, by omega, by omega, h4, h3⟩
    · exact Or.inr ⟨w, by omega, by omega, h4, fun d d0 d1 => (h3 d d0 d1).symm⟩
  · left
    push Not at h
    intro d d0 d1
    have := h d.toNat (by omega)
    rwa [Int.toNat_of_nonneg d0] at this

theorem grid_order (hq : SidesOk q n) (a b : ℤ → ℤ) (ha : InGrid q n a) (hb : InGrid q n b) :
    part q n a n < part q n b n ↔ Lex a b n := by
  constructor
  · intro h
    rcases lex_trichotomy n a b with h1 | h1 | h1
    · rw [number_of_equal q n a b h1] at h; exact absurd h (lt_irrefl _)
    · exact h1
    · have := lex_lt q n hq b a hb ha h1; omega
  · exact lex_lt q n hq a b ha hb

theorem number_inj (hq : SidesOk q n) (a b : ℤ → ℤ) (ha : InGrid q n a) (hb : InGrid q n b)
    (h : part q n a n = part q n b n) : ∀ d : ℤ, 0 ≤ d → d < n → a d = b d := by
  rcases lex_trichotomy n a b with h1 | h1 | h1
  · exact h1
  · have := lex_lt q n hq a b ha hb h1; omega
  · have := lex_lt q n hq b a hb ha h1; omega

theorem emod_mul (i a b : ℤ) (ha : 0 < a) (hb : 0 < b) : i % (a * b) = i % a + (i / a % b) * a := by
  have h1 := Int.emod_add_mul_ediv i a
  have h2 := Int.emod_add_mul_ediv (i / a) b
  have h3 : i = (i % a + (i / a % b) * a) + (a * b) * (i / a / b) := by
    have : a * (i / a) = a * (i / a % b) + a * b * (i / a / b) := by
      conv_lhs => rw [← h2]
      ring
    linarith [mul_comm a (i / a % b)]
  have b1 := Int.emod_nonneg i (ne_of_gt ha)
  have b2 := Int.emod_lt_of_pos i ha
  have b3 := Int.emod_nonneg (i / a) (ne_of_gt hb)
  have b4 := Int.emod_lt_of_pos (i / a) hb
  conv_lhs => rw [h3]
  rw [Int.add_mul_emod_self_left]
  apply Int.emod_eq_of_lt
  · nlinarith [mul_nonneg b3 (le_of_lt ha)]
  · nlinarith [mul_le_mul_of_nonneg_right (by omega : (i / a % b) + 1 ≤ b) (le_of_lt ha)]

theorem pos_in_grid (hq : SidesOk q n) (i : ℤ) : InGrid q n (pos q n i) := by
  intro d d0 d1
  have := hq d d0 d1
  exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩

theorem number_of_pos (hq : SidesOk q n) (i : ℤ) : ∀ m, m ≤ n → part q n (pos q n i) m = i % str q n m := by
  intro m
  induction m with
  | zero => intro _; simp [part, str, Int.emod_one]
  | succ m ih =>
    intro hm
    have h1 := str_pos q n hq m (by omega)
    have h2 := hq (n - 1 - m) (by omega) (by omega)
    simp only [part, str]
    rw [ih (by omega), emod_mul i (str q n m) _ (by omega) (by omega)]
    have e : ((n : ℤ) - 1 - (n - 1 - m)).toNat = m := by omega
    simp only [pos, e]

theorem grid_at (hq : SidesOk q n) (i : ℤ) (h0 : 0 ≤ i) (h1 : i < str q n n) :
    part q n (pos q n i) n = i ∧ InGrid q n (pos q n i) := by
  refine ⟨?_, pos_in_grid q n hq i⟩
  rw [number_of_pos q n hq i n (le_refl n), Int.emod_eq_of_lt h0 h1]

theorem grid_number (hq : SidesOk q n) (p : ℤ → ℤ) (hp : InGrid q n p) :
    0 ≤ part q n p n ∧ part q n p n < str q n n ∧ ∀ d : ℤ, 0 ≤ d → d < n → pos q n (part q n p n) d = p d := by
  have hb := part_bounds q n hq p hp n (le_refl n)
  have h := grid_at q n hq (part q n p n) hb.1 hb.2
  exact ⟨hb.1, hb.2, number_inj q n hq _ _ h.2 hp h.1⟩

/-- s is the successor of p: the last coordinate j that is not maximal is increased, the following ones are 0 -/
def IsSucc (p s : ℤ → ℤ) : Prop :=
  (∃ j : ℤ, 0 ≤ j ∧ j < n ∧ p j < q j - 1 ∧ (∀ d : ℤ, j < d → d < n → p d ≥ q d - 1) ∧
    (∀ d : ℤ, d < j → s d = p d) ∧ s j = p j + 1 ∧ ∀ d : ℤ, j < d → s d = 0) ∨
  ((∀ d : ℤ, 0 ≤ d → d < n → p d ≥ q d - 1) ∧ ∀ d : ℤ, s d = p d)

theorem all_max (p : ℤ → ℤ) : ∀ k, k ≤ n → (∀ d : ℤ, (n : ℤ) - k ≤ d → d < n → p d = q d - 1) → part q n p k = str q n k - 1 := by
  intro k
  induction k with
  | zero => intro _ _; simp [part, str]
  | succ k ih =>
    intro hk h
    simp only [part, str]
    rw [ih (by omega) (fun d h1 h2 => h d (by push_cast; omega) h2), h (n - 1 - k) (by push_cast; omega) (by omega)]
    ring

theorem all_zero (p : ℤ → ℤ) : ∀ k, k ≤ n → (∀ d : ℤ, (n : ℤ) - k ≤ d → d < n → p d = 0) → part q n p k = 0 := by
  intro k
  induction k with
  | zero => intro _ _; simp [part]
  | succ k ih =>
    intro hk h
    simp only [part]
    rw [ih (by omega) (fun d h1 h2 => h d (by push_cast; omega) h2), h (n - 1 - k) (by push_cast; omega) (by omega)]
    ring

theorem grid_successor (hq : SidesOk q n) (p s : ℤ → ℤ) (i : ℤ) (h0 : 0 ≤ i) (h1 : i + 1 < str q n n)
    (hp : ∀ d : ℤ, 0 ≤ d → d < n → p d = pos q n i d) (hs : IsSucc q n p s) :
    ∀ d : ℤ, 0 ≤ d → d < n → s d = pos q n (i + 1) d := by
  have hat := grid_at q n hq i h0 (by omega)
  have hg : InGrid q n p := fun d d0 d1 => by rw [hp d d0 d1]; exact hat.2 d d0 d1
  have hn : part q n p n = i := by rw [number_of_equal q n p _ hp]; exact hat.1
  rcases hs with ⟨j, j0, j1, j2, j3, j4, j5, j6⟩ | ⟨hm, _⟩
  · have hsg : InGrid q n s := by
      intro d d0 d1
      rcases lt_trichotomy d j with h | h | h
      · rw [j4 d h]; exact hg d d0 d1
      · subst h; rw [j5]; have := hg d d0 d1; omega
      · rw [j6 d h]; have := hq d d0 d1; omega
    set k : ℕ := n - 1 - j.toNat with hk
    have e : (n : ℤ) - 1 - k = j := by omega
    have hmax := all_max q n p k (by omega) (fun d d0 d1 => by
      have a := j3 d (by omega) d1
      have b := hg d (by omega) d1
      omega)
    have hzero := all_zero q n s k (by omega) (fun d d0 d1 => j6 d (by omega))
    have hc := part_congr q n p s (k + 1) n (by omega) (le_refl n) (fun d h1 h2 => (j4 d (by push_cast at h2; omega)).symm)
    have hnum : part q n s n = i + 1 := by
      simp only [part] at hc
      rw [e, hmax, hzero, j5, hn] at hc
      linarith [add_mul (p j) 1 (str q n k)]
    have := (grid_number q n hq s hsg).2.2
    rw [hnum] at this
    intro d d0 d1
    exact (this d d0 d1).symm
  · have hmax := all_max q n p n (le_refl n) (fun d d0 d1 => by
      have a := hm d (by omega) d1
      have b := hg d (by omega) d1
      omega)
    omega

theorem prod_eq_str (q : ℤ → ℤ) : ∀ n, prod q n = str q n n := by
  -- peel the first side off the product of all
  have shift : ∀ (q : ℤ → ℤ) (n k : ℕ), str q (n + 1) k * 1 = str (fun d => q (d + 1)) n k := by
    intro q n k
    induction k with
    | zero => simp [str]
    | succ k ih =>
      simp only [str, mul_one] at *
      rw [ih]; congr 2; push_cast; ring
  have first : ∀ (q : ℤ → ℤ) (n : ℕ), prod q (n + 1) = q 0 * prod (fun d => q (d + 1)) n := by
    intro q n
    induction n with
    | zero => simp [prod]
    | succ n ih =>
      rw [prod, ih, prod]; push_cast; ring
  intro n
  induction n generalizing q with
  | zero => simp [prod, str]
  | succ n ih =>
    rw [first, ih, ← shift, str]
    have : ((n + 1 : ℕ) : ℤ) - 1 - n = 0 := by push_cast; ring
    rw [this]; ring

theorem grid_first (hq : SidesOk q n) :
    prod q n = str q n n ∧ 1 ≤ prod q n ∧ ∀ d : ℤ, 0 ≤ d → d < n → pos q n 0 d = 0 := by
  refine ⟨prod_eq_str q n, ?_, ?_⟩
  · rw [prod_eq_str q n]; exact str_pos q n hq n (le_refl n)
  · intro d _ _; simp [pos]

/-- cubes of side s of a grid that reaches the far corner, enlarged by o/2 on each side, contain every
box of the bounding box that is at most o wide -/
theorem grid_cover (mn mx l u : ℤ → ℝ) (s o : ℝ) (hs : 0 ≤ s) (ho : 0 ≤ o) (hq : SidesOk q n)
    (hr : ∀ d : ℤ, 0 ≤ d → d < n → s * (q d : ℝ) ≥ mx d - mn d)
    (hb : ∀ d : ℤ, 0 ≤ d → d < n → mn d ≤ l d ∧ l d ≤ u d ∧ u d ≤ mx d ∧ u d - l d ≤ o) :
    ∃ h : ℤ, 0 ≤ h ∧ h < prod q n ∧ ∀ d : ℤ, 0 ≤ d → d < n →
      mn d + s * (pos q n h d : ℝ) - o / 2 ≤ l d ∧ u d ≤ mn d + s * (pos q n h d : ℝ) + s + o / 2 := by
  -- the position whose (not enlarged) cube contains the midpoint
  have hex : ∀ d : ℤ, 0 ≤ d → d < n → ∃ k : ℤ, (0 ≤ k ∧ k < q d) ∧
      mn d + s * (k : ℝ) ≤ (l d + u d) / 2 ∧ (l d + u d) / 2 ≤ mn d + s * (k : ℝ) + s := by
    intro d d0 d1
    obtain ⟨b1, b2, b3, _⟩ := hb d d0 d1
    have hq1 := hq d d0 d1
    have hr1 := hr d d0 d1
    rcases eq_or_lt_of_le hs with h | h
    · refine ⟨0, ⟨le_refl _, by omega⟩, ?_⟩
      rw [← h] at hr1 ⊢
      constructor <;> simp at * <;> linarith
    · set t := ((l d + u d) / 2 - mn d) / s with ht
      have ht0 : 0 ≤ t := div_nonneg (by linarith) hs
      have hts : s * t = (l d + u d) / 2 - mn d := by rw [ht]; field_simp
      have hf0 : 0 ≤ ⌊t⌋ := Int.floor_nonneg.2 ht0
      by_cases hlt : ⌊t⌋ < q d
      · refine ⟨⌊t⌋, ⟨hf0, hlt⟩, ?_, ?_⟩
        · have := mul_le_mul_of_nonneg_left (Int.floor_le t) hs
          linarith
        · have := mul_le_mul_of_nonneg_left (le_of_lt (Int.lt_floor_add_one t)) hs
          linarith
      · refine ⟨q d - 1, ⟨by omega, by omega⟩, ?_, ?_⟩
        · have h1 : ((q d : ℤ) : ℝ) ≤ t := le_trans (by exact_mod_cast (not_lt.1 hlt)) (Int.floor_le t)
          have h2 : (((q d - 1 : ℤ)) : ℝ) ≤ t := by push_cast; linarith
          have := mul_le_mul_of_nonneg_left h2 hs
          linarith
        · push_cast
          have : s * ((q d : ℝ) - 1) + s = s * (q d : ℝ) := by ring
          linarith
  choose! k hk using hex
  have hg : InGrid q n k := fun d d0 d1 => (hk d d0 d1).1
  obtain ⟨n0, n1, n2⟩ := grid_number q n hq k hg
  refine ⟨part q n k n, n0, by rw [prod_eq_str q n]; exact n1, ?_⟩
  intro d d0 d1
  rw [n2 d d0 d1]
  obtain ⟨_, h1, h2⟩ := hk d d0 d1
  obtain ⟨b1, b2, b3, b4⟩ := hb d d0 d1
  constructor <;> linarith

end PMV
