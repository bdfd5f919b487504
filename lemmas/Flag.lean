import Mathlib
/-! Composition lemmas for contracts/complexes.py: what the level-by-level postconditions of `flag_complex` and
`vietoris_rips` say about the whole complex.  `S k r t`: vertex `t` of row `r` of the level `k` (the `k`-simplices),
`N k`: number of rows of the level, `E a b`: there is an edge `(a, b)`. -/
namespace PMV

/-- the vertices `s 0, ..., s k` are pairwise joined (smaller vertex first) -/
def Clique (E : ℤ → ℤ → Prop) (k : ℤ) (s : ℤ → ℤ) : Prop := ∀ a b, 0 ≤ a → a < b → b ≤ k → E (s a) (s b)

/-- the postcondition `ext_of` of one level: its rows are the extensions of the rows of the previous level by a
common lower neighbour, each once -/
def Ext (E : ℤ → ℤ → Prop) (S : ℤ → ℤ → ℤ → ℤ) (N : ℤ → ℤ) (k : ℤ) (par : ℤ → ℤ) (pos : ℤ → ℤ → ℤ) : Prop :=
  (∀ r, 0 ≤ r → r < N k → 0 ≤ par r ∧ par r < N (k - 1) ∧ (∀ t, 0 ≤ t → t < k → E (S k r 0) (S (k - 1) (par r) t)) ∧
    pos (par r) (S k r 0) = r) ∧
  (∀ r t, 0 ≤ r → r < N k → 0 ≤ t → t ≤ k - 1 → S k r (t + 1) = S (k - 1) (par r) t) ∧
  (∀ q n, 0 ≤ q → q < N (k - 1) → (∀ t, 0 ≤ t → t < k → E n (S (k - 1) q t)) →
    0 ≤ pos q n ∧ pos q n < N k ∧ par (pos q n) = q ∧ S k (pos q n) 0 = n)

/-- the level `k` lists the cliques of `k + 1` vertices, each exactly once -/
def Lists (E : ℤ → ℤ → Prop) (S : ℤ → ℤ → ℤ → ℤ) (N : ℤ → ℤ) (k : ℤ) : Prop :=
  (∀ r, 0 ≤ r → r < N k → Clique E k (S k r)) ∧
  (∀ s, Clique E k s → ∃ r, 0 ≤ r ∧ r < N k ∧ ∀ t, 0 ≤ t → t ≤ k → S k r t = s t) ∧
  (∀ r r', 0 ≤ r → r < N k → 0 ≤ r' → r' < N k → (∀ t, 0 ≤ t → t ≤ k → S k r t = S k r' t) → r = r')

theorem level_step (E : ℤ → ℤ → Prop) (S : ℤ → ℤ → ℤ → ℤ) (N : ℤ → ℤ) (k : ℤ) (hk : 2 ≤ k) (par : ℤ → ℤ)
    (pos : ℤ → ℤ → ℤ) (hx : Ext E S N k par pos) (hl : Lists E S N (k - 1)) : Lists E S N k := by
  obtain ⟨x1, x2, x3⟩ := hx
  obtain ⟨l1, l2, l3⟩ := hl
  refine ⟨?_, ?_, ?_⟩
  · intro r r0 r1 a b a0 ab bk
    obtain ⟨p0, p1, p2, p3⟩ := x1 r r0 r1
    have eb : S k r b = S (k - 1) (par r) (b - 1) := by
      have := x2 r (b - 1) r0 r1 (by omega) (by omega)
      rwa [show b - 1 + 1 = b by ring] at this
    rcases eq_or_lt_of_le a0 with h | h
    · subst h; rw [eb]; exact p2 _ (by omega) (by omega)
    · have ea : S k r a = S (k - 1) (par r) (a - 1) := by
        have := x2 r (a - 1) r0 r1 (by omega) (by omega)
        rwa [show a - 1 + 1 = a by ring] at this
      rw [ea, eb]
      exact l1 _ p0 p1 _ _ (by omega) (by omega) (by omega)
  · intro s hs
    obtain ⟨q, q0, q1, q2⟩ := l2 (fun t => s (t + 1)) (fun a b a0 ab bk => hs _ _ (by omega) (by omega) (by omega))
    obtain ⟨y0, y1, y2, y3⟩ := x3 q (s 0) q0 q1 (fun t t0 t1 => by
      rw [q2 t t0 (by omega)]; exact hs 0 (t + 1) (le_refl _) (by omega) (by omega))
    refine ⟨pos q (s 0), y0, y1, fun t t0 t1 => ?_⟩
    rcases eq_or_lt_of_le t0 with h | h
    · rw [← h]; exact y3
    · have := x2 _ (t - 1) y0 y1 (by omega) (by omega)
      rw [show t - 1 + 1 = t by ring, y2, q2 (t - 1) (by omega) (by omega)] at this
      simpa using this
  · intro r r' r0 r1 r0' r1' h
    obtain ⟨p0, p1, _, p3⟩ := x1 r r0 r1
    obtain ⟨p0', p1', _, p3'⟩ := x1 r' r0' r1'
    have : par r = par r' := l3 _ _ p0 p1 p0' p1' (fun t t0 t1 => by
      rw [← x2 r t r0 r1 t0 t1, ← x2 r' t r0' r1' t0 t1]; exact h _ (by omega) (by omega))
    rw [← p3, ← p3', this, h 0 (le_refl _) (by omega)]

/-- the edges: rows of two vertices, each edge once -/
theorem level_one (E : ℤ → ℤ → Prop) (S : ℤ → ℤ → ℤ → ℤ) (N : ℤ → ℤ) (row : ℤ → ℤ → ℤ)
    (hE : ∀ a b, E a b ↔ ∃ e, 0 ≤ e ∧ e < N 1 ∧ S 1 e 0 = a ∧ S 1 e 1 = b)
    (once : ∀ e, 0 ≤ e → e < N 1 → row (S 1 e 0) (S 1 e 1) = e) : Lists E S N 1 := by
  refine ⟨?_, ?_, ?_⟩
  · intro r r0 r1 a b a0 ab b1
    have ha : a = 0 := by omega
    have hb : b = 1 := by omega
    subst ha hb
    exact (hE _ _).2 ⟨r, r0, r1, rfl, rfl⟩
  · intro s hs
    obtain ⟨e, e0, e1, h0, h1⟩ := (hE _ _).1 (hs 0 1 (le_refl _) (by norm_num) (le_refl _))
    refine ⟨e, e0, e1, fun t t0 t1 => ?_⟩
    have : t = 0 ∨ t = 1 := by omega
    rcases this with h | h <;> subst h <;> assumption
  · intro r r' r0 r1 r0' r1' h
    rw [← once r r0 r1, ← once r' r0' r1', h 0 (le_refl _) (by norm_num), h 1 (by norm_num) (le_refl _)]

/-- flag_complex, vietoris_rips, nerve_hypercube_cover: all levels together are the clique complex of the edges,
every simplex exactly once -/
theorem flag_complex (E : ℤ → ℤ → Prop) (S : ℤ → ℤ → ℤ → ℤ) (N : ℤ → ℤ) (row : ℤ → ℤ → ℤ) (top : ℤ)
    (hE : ∀ a b, E a b ↔ ∃ e, 0 ≤ e ∧ e < N 1 ∧ S 1 e 0 = a ∧ S 1 e 1 = b)
    (once : ∀ e, 0 ≤ e → e < N 1 → row (S 1 e 0) (S 1 e 1) = e)
    (par : ℤ → ℤ → ℤ) (pos : ℤ → ℤ → ℤ → ℤ) (hx : ∀ k, 2 ≤ k → k ≤ top → Ext E S N k (par k) (pos k)) :
    ∀ k, 1 ≤ k → k ≤ top → Lists E S N k := by
  intro k hk
  induction k, hk using Int.le_induction with
  | base => intro _; exact level_one E S N row hE once
  | succ k hk ih =>
    intro h
    exact level_step E S N (k + 1) (by omega) _ _ (hx _ (by omega) h) (by simpa using ih (by omega))

/-- edges with the smaller vertex first: the rows are increasing, and faces of simplices are simplices -/
theorem clique_incr (E : ℤ → ℤ → Prop) (lt : ∀ a b, E a b → a < b) (k : ℤ) (s : ℤ → ℤ) (h : Clique E k s) :
    ∀ a b, 0 ≤ a → a < b → b ≤ k → s a < s b := fun a b a0 ab bk => lt _ _ (h a b a0 ab bk)

theorem clique_face (E : ℤ → ℤ → Prop) (k q : ℤ) (s : ℤ → ℤ) (h : Clique E k s) (hq : 0 ≤ q) (hqk : q ≤ k) :
    Clique E (k - 1) (fun t => if t < q then s t else s (t + 1)) := by
  intro a b a0 ab bk
  simp only
  split_ifs <;> exact h _ _ (by omega) (by omega) (by omega)

/-- largest distance of two vertices: the recursion of vietoris_rips computes the diameter -/
theorem diameter_step (d : ℤ → ℤ → ℝ) (k : ℤ) (hk : 2 ≤ k) (s : ℤ → ℤ) (m r : ℝ)
    (hm : (∃ a b, 1 ≤ a ∧ a < b ∧ b ≤ k ∧ d (s a) (s b) = m) ∧ ∀ a b, 1 ≤ a → a < b → b ≤ k → d (s a) (s b) ≤ m)
    (hr : (r = m ∨ ∃ t, 1 ≤ t ∧ t ≤ k ∧ r = d (s 0) (s t)) ∧ m ≤ r ∧ ∀ t, 1 ≤ t → t ≤ k → d (s 0) (s t) ≤ r) :
    (∃ a b, 0 ≤ a ∧ a < b ∧ b ≤ k ∧ d (s a) (s b) = r) ∧ ∀ a b, 0 ≤ a → a < b → b ≤ k → d (s a) (s b) ≤ r := by
  obtain ⟨⟨a, b, a1, ab, bk, hab⟩, hall⟩ := hm
  obtain ⟨h1, h2, h3⟩ := hr
  refine ⟨?_, ?_⟩
  · rcases h1 with h | ⟨t, t1, tk, h⟩
    · exact ⟨a, b, by omega, ab, bk, by rw [hab, h]⟩
    · exact ⟨0, t, le_refl _, by omega, tk, h.symm⟩
  · intro a b a0 ab bk
    rcases eq_or_lt_of_le a0 with h | h
    · subst h; exact h3 b (by omega) bk
    · exact le_trans (hall a b (by omega) ab bk) h2
end PMV
