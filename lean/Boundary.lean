/- Boundary wavelets (C15, C16, C19): from the verified contracts of the matrices to inversion. -/
import Mathlib

open Finset Matrix

namespace PTV

/-- Taps `f b` (b = low / high) of even length `L`, zero outside, orthonormal to their even shifts. -/
structure OBank where
  L : ℕ
  f : Bool → ℤ → ℝ
  L_even : L % 2 = 0
  L_ge : 2 ≤ L
  supp : ∀ b k, ¬(0 ≤ k ∧ k < (L : ℤ)) → f b k = 0

/-- The orthogonality condition. -/
def Orth (B : OBank) : Prop := ∀ b c (m : ℤ), ∑ k ∈ Ico (0 : ℤ) B.L, B.f b k * B.f c (k + 2 * m) = if b = c ∧ m = 0 then 1 else 0

/-- Verified contract of the raw matrix: entry of row `r` of filter `b` in column `c`. -/
def raw (B : OBank) (b : Bool) (r c : ℤ) : ℝ := B.f b (2 * r + B.L / 2 - c)

/-- all taps of the row lie inside the `n` columns -/
def Full (B : OBank) (n : ℕ) (r : ℤ) : Prop := 0 ≤ 2 * r + B.L / 2 - (B.L - 1) ∧ 2 * r + B.L / 2 ≤ (n : ℤ) - 1

/-- A full row is orthonormal to every row (truncated or not): the truncation only drops columns where the full row is zero. -/
theorem full_rows (B : OBank) (ho : Orth B) (n : ℕ) (b c : Bool) (r s : ℤ) (hr : Full B n r) :
    ∑ j ∈ Ico (0 : ℤ) n, raw B b r j * raw B c s j = if b = c ∧ r = s then 1 else 0 := by
  have key := ho b c (s - r)
  have e : (b = c ∧ s - r = 0) ↔ (b = c ∧ r = s) := by
    constructor
    · rintro ⟨h, h'⟩; exact ⟨h, by omega⟩
    · rintro ⟨h, h'⟩; exact ⟨h, by omega⟩
  simp only [e] at key
  rw [← key]
  have sub : Ico (2 * r + (B.L : ℤ) / 2 - (B.L - 1)) (2 * r + B.L / 2 + 1) ⊆ Ico (0 : ℤ) n := by
    intro x hx
    simp only [mem_Ico] at hx ⊢
    obtain ⟨h1, h2⟩ := hr
    constructor <;> omega
  rw [← sum_subset sub]
  · symm
    apply sum_bij (fun k _ => 2 * r + (B.L : ℤ) / 2 - k)
    · intro k hk; simp only [mem_Ico] at hk ⊢; omega
    · intro a _ a' _ h; omega
    · intro x hx
      simp only [mem_Ico] at hx
      exact ⟨2 * r + (B.L : ℤ) / 2 - x, by simp only [mem_Ico]; omega, by omega⟩
    · intro k _
      unfold raw
      congr 2
      · ring
      · ring
  · intro x _ hx
    unfold raw
    rw [B.supp, zero_mul]
    intro h
    apply hx
    simp only [mem_Ico]
    omega

/-- The same for products of two rows (the rows of the two-dimensional matrix). -/
theorem full_rows2 (B : OBank) (ho : Orth B) (n m : ℕ) (b b' c c' : Bool) (r r' s s' : ℤ) (hr : Full B n r) (hr' : Full B m r') :
    ∑ i ∈ Ico (0 : ℤ) n, ∑ j ∈ Ico (0 : ℤ) m, (raw B b r i * raw B b' r' j) * (raw B c s i * raw B c' s' j)
      = if (b = c ∧ r = s) ∧ (b' = c' ∧ r' = s') then 1 else 0 := by
  have e : ∀ i j, (raw B b r i * raw B b' r' j) * (raw B c s i * raw B c' s' j) = (raw B b r i * raw B c s i) * (raw B b' r' j * raw B c' s' j) := by
    intro i j; ring
  simp only [e]
  rw [← sum_mul_sum, full_rows B ho n b c r s hr, full_rows B ho m b' c' r' s' hr']
  by_cases h : b = c ∧ r = s <;> by_cases h' : b' = c' ∧ r' = s' <;> simp [h, h']

variable {N : Type} [Fintype N] [DecidableEq N]

/-- Contract of `orthogonalize` (C15): rows outside `bd` as before, rows in `bd` an orthonormal basis of the span of the rows `bd`. -/
structure Orthogonalized (A Q : Matrix N N ℝ) (bd : N → Prop) : Prop where
  keep : ∀ i, ¬ bd i → Q i = A i
  span : ∀ i, bd i → Q i ∈ Submodule.span ℝ {v | ∃ j, bd j ∧ v = A j}
  orth : ∀ i j, bd i → bd j → Q i ⬝ᵥ Q j = if i = j then 1 else 0

/-- The boundary matrix is orthogonal, on both sides. -/
theorem orthogonal (A Q : Matrix N N ℝ) (bd : N → Prop)
    (hfull : ∀ i j, ¬ bd i → A i ⬝ᵥ A j = if i = j then 1 else 0) (h : Orthogonalized A Q bd) :
    Qᵀ * Q = 1 := by
  have zero : ∀ i, ¬ bd i → ∀ v ∈ Submodule.span ℝ {v | ∃ j, bd j ∧ v = A j}, A i ⬝ᵥ v = 0 := by
    intro i hi v hv
    induction hv using Submodule.span_induction with
    | mem x hx =>
      obtain ⟨j, hj, rfl⟩ := hx
      rw [hfull i j hi, if_neg]
      rintro rfl
      exact hi hj
    | zero => simp
    | add x y _ _ hx hy => rw [dotProduct_add, hx, hy, add_zero]
    | smul a x _ hx => rw [dotProduct_smul, hx, smul_zero]
  have rows : Q * Qᵀ = 1 := by
    ext i j
    have e : (Q * Qᵀ) i j = Q i ⬝ᵥ Q j := rfl
    rw [e, Matrix.one_apply]
    by_cases hi : bd i <;> by_cases hj : bd j
    · exact h.orth i j hi hj
    · rw [h.keep j hj, dotProduct_comm, zero j hj _ (h.span i hi), if_neg]
      rintro rfl; exact hj hi
    · rw [h.keep i hi, zero i hi _ (h.span j hj), if_neg]
      rintro rfl; exact hi hj
    · rw [h.keep i hi, h.keep j hj]; exact hfull i j hi
  exact mul_eq_one_comm.mp rows

/-- One level: the synthesis contract applied to the analysis contract returns the (padded) approximation. -/
theorem one_level (Q : Matrix N N ℝ) (hq : Qᵀ * Q = 1) (x : N → ℝ) (j : N) :
    ∑ c, Q c j * ∑ k, Q c k * x k = x j := by
  have : (Qᵀ *ᵥ (Q *ᵥ x)) j = x j := by rw [Matrix.mulVec_mulVec, hq, Matrix.one_mulVec]
  simpa [Matrix.mulVec, dotProduct] using this

/-- Splitting the product into halves and putting the halves together again (the two lists hold the upper and lower half). -/
theorem halves (n : ℕ) (y lo hi : ℕ → ℝ) (hlo : ∀ t < n, lo t = y t) (hhi : ∀ t < n, hi t = y (n + t)) (c : ℕ) (hc : c < 2 * n) :
    (if c < n then lo c else 0) + (if n ≤ c then hi (c - n) else 0) = y c := by
  by_cases h : c < n
  · rw [if_pos h, if_neg (by omega), add_zero, hlo c h]
  · rw [if_neg h, if_pos (by omega), zero_add, hhi (c - n) (by omega)]
    congr 1; omega

/-- Iterated inversion. `A i` on `[0, n i)`, padded approximation `P i` on `[0, 2 n(i+1))` agreeing with `A i` on `[0, n i)`;
`R t` on `[0, n (J - t))`; `step i` is the synthesis contract of level `i`, reading its argument on `[0, n(i+1))` only. -/
theorem all_levels (n : ℕ → ℕ) (A P R : ℕ → ℕ → ℝ) (step : ℕ → (ℕ → ℝ) → ℕ → ℝ) (J : ℕ)
    (half : ∀ i, n i ≤ 2 * n (i + 1))
    (pad : ∀ i, ∀ x < n i, P i x = A i x)
    (base : ∀ x < n J, R 0 x = A J x)
    (rec_ : ∀ t, t < J → ∀ x < n (J - t - 1), R (t + 1) x = step (J - t - 1) (R t) x)
    (local_ : ∀ i r s, (∀ x < n (i + 1), r x = s x) → step i r = step i s)
    (one : ∀ i, i < J → ∀ x < 2 * n (i + 1), step i (A (i + 1)) x = P i x) :
    ∀ t, t ≤ J → ∀ x < n (J - t), R t x = A (J - t) x := by
  intro t
  induction t with
  | zero => intro _ x hx; exact base x hx
  | succ t ih =>
    intro ht x hx
    have h := ih (by omega)
    have e : J - t = (J - t - 1) + 1 := by omega
    have e2 : J - (t + 1) = J - t - 1 := by omega
    rw [e2] at hx ⊢
    rw [rec_ t (by omega) x hx, local_ (J - t - 1) (R t) (A (J - t - 1 + 1)) (by rw [← e]; exact h),
      one (J - t - 1) (by omega) x (by have := half (J - t - 1); omega), pad _ x hx]

/-- Sizes of the analysis meet the precondition of the synthesis: m(p) = n(J-p) with m(p+1) = 2 m(p) or 2 m(p) - 1,
the reconstruction has the padded length: the input plus at most one sample. -/
theorem half_sizes (n : ℕ → ℕ) (J : ℕ) (h : ∀ i, n (i + 1) = (n i + 1) / 2) :
    (∀ p, p < J → n (J - (p + 1)) = 2 * n (J - p) ∨ n (J - (p + 1)) = 2 * n (J - p) - 1) ∧ ∀ i, n i ≤ 2 * n (i + 1) ∧ 2 * n (i + 1) ≤ n i + 1 := by
  constructor
  · intro p hp
    have e : J - p = (J - (p + 1)) + 1 := by omega
    rw [e, h]
    omega
  · intro i
    rw [h]
    omega

/-- Used as a fact about the sizes of the synthesis: if no level has an odd length, no sample is dropped. -/
theorem pad_none (m odd : ℕ → ℕ) (J : ℕ) (hodd : ∀ p, odd p ≤ 1) (hm : ∀ p, 1 ≤ m p) (h : ∀ p, m (p + 1) = 2 * m p - odd p)
    (even : ∀ q, q < J → m (J - q) % 2 ≠ 1) : ∀ p, p < J → odd p = 0 := by
  intro p hp
  have e := even (J - (p + 1)) (by omega)
  have e2 : J - (J - (p + 1)) = p + 1 := by omega
  rw [e2, h p] at e
  have := hodd p
  have := hm p
  omega

/-- The analysis operator applied to the data is the stacked coefficient vector: `M p` is the matrix of level `p` extended by the
identity, `s p` the vector [A(p); detail(p-1); ..; detail(0)]. -/
theorem fwt_operator (M O : ℕ → Matrix N N ℝ) (s : ℕ → N → ℝ) (hO : O 0 = 1) (hs : ∀ p, O (p + 1) = M p * O p)
    (h : ∀ p, s (p + 1) = M p *ᵥ s p) : ∀ p, O p *ᵥ s 0 = s p := by
  intro p
  induction p with
  | zero => rw [hO, one_mulVec]
  | succ p ih => rw [hs, ← mulVec_mulVec, ih, h]

/-- The stacked vector obeys that recursion: rows below the size of the level are transformed, the others are kept. -/
theorem stacked (k : ℕ) (m : ℕ) (hm : m ≤ k) (BA : ℕ → ℕ → ℝ) (s : ℕ → ℝ) (r : ℕ) (hr : r < k) :
    ∑ c ∈ range k, ((if r < m ∧ c < m then BA r c else 0) + (if m ≤ r ∧ r = c then 1 else 0)) * s c
      = if r < m then ∑ c ∈ range m, BA r c * s c else s r := by
  by_cases h : r < m
  · rw [if_pos h]
    have e : ∀ c ∈ range k, ((if r < m ∧ c < m then BA r c else 0) + (if m ≤ r ∧ r = c then (1 : ℝ) else 0)) * s c
        = if c < m then BA r c * s c else 0 := by
      intro c _
      by_cases hc : c < m
      · rw [if_pos ⟨h, hc⟩, if_neg (by omega), if_pos hc, add_zero]
      · rw [if_neg (by tauto), if_neg (by omega), if_neg hc, add_zero, zero_mul]
    rw [sum_congr rfl e, ← sum_filter]
    congr 1
    ext c
    simp only [mem_filter, mem_range]
    omega
  · rw [if_neg h]
    have e : ∀ c ∈ range k, ((if r < m ∧ c < m then BA r c else 0) + (if m ≤ r ∧ r = c then (1 : ℝ) else 0)) * s c
        = if r = c then s c else 0 := by
      intro c _
      by_cases hc : r = c
      · rw [if_neg (by tauto), if_pos ⟨by omega, hc⟩, if_pos hc, zero_add, one_mul]
      · rw [if_neg (by tauto), if_neg (by tauto), if_neg hc, add_zero, zero_mul]
    rw [sum_congr rfl e, sum_ite_eq, if_pos (mem_range.mpr hr)]

/-- The synthesis operator is the transpose of the analysis operator of the same sizes, hence its inverse: both are products of the same
level matrices, one in the reverse order and transposed. -/
theorem ifwt_operator (M O : ℕ → Matrix N N ℝ) (hO : O 0 = 1) (hs : ∀ p, O (p + 1) = M p * O p)
    (orth : ∀ p, (M p)ᵀ * M p = 1) (J : ℕ) (P : ℕ → Matrix N N ℝ) (hP : P 0 = 1) (hPs : ∀ p, p < J → P (p + 1) = (M (J - (p + 1)))ᵀ * P p) :
    P J * O J = 1 := by
  have gen : ∀ p, p ≤ J → P p * O J = O (J - p) := by
    intro p
    induction p with
    | zero => intro _; rw [hP, Matrix.one_mul]; rfl
    | succ p ih =>
      intro h
      rw [hPs p (by omega), Matrix.mul_assoc, ih (by omega)]
      have e : J - p = (J - (p + 1)) + 1 := by omega
      rw [e, hs, ← Matrix.mul_assoc, orth, Matrix.one_mul]
  have := gen J le_rfl
  rw [this, Nat.sub_self, hO]

/-- One separable level in two dimensions: the transposed matrices along both axes undo the matrices along both axes. -/
theorem one_level2 {M : Type} [Fintype M] [DecidableEq M] (Q : Matrix N N ℝ) (S : Matrix M M ℝ) (hq : Qᵀ * Q = 1) (hs : Sᵀ * S = 1)
    (x : N → M → ℝ) (i : N) (j : M) :
    ∑ c, ∑ d, Q c i * S d j * ∑ k, ∑ l, Q c k * S d l * x k l = x i j := by
  have e : ∀ c d, ∑ k, ∑ l, Q c k * S d l * x k l = ∑ l, S d l * ∑ k, Q c k * x k l := by
    intro c d
    rw [sum_comm]
    exact sum_congr rfl fun l _ => by rw [mul_sum]; exact sum_congr rfl fun k _ => by ring
  have f : ∀ c, ∑ d, Q c i * S d j * ∑ k, ∑ l, Q c k * S d l * x k l = Q c i * ∑ k, Q c k * x k j := by
    intro c
    rw [← one_level S hs (fun l => ∑ k, Q c k * x k l) j, mul_sum]
    exact sum_congr rfl fun d _ => by rw [e]; ring
  rw [sum_congr rfl fun c _ => f c, one_level Q hq (fun k => x k j) i]

/-- One level in three dimensions. -/
theorem one_level3 {M O : Type} [Fintype M] [DecidableEq M] [Fintype O] [DecidableEq O] (Q : Matrix N N ℝ) (S : Matrix M M ℝ) (T : Matrix O O ℝ)
    (hq : Qᵀ * Q = 1) (hs : Sᵀ * S = 1) (ht : Tᵀ * T = 1) (x : N → M → O → ℝ) (i : N) (j : M) (m : O) :
    ∑ c, ∑ d, ∑ e, Q c i * S d j * T e m * ∑ k, ∑ l, ∑ p, Q c k * S d l * T e p * x k l p = x i j m := by
  have f : ∀ c d e, ∑ k, ∑ l, ∑ p, Q c k * S d l * T e p * x k l p = ∑ p, T e p * ∑ k, ∑ l, Q c k * S d l * x k l p := by
    intro c d e
    rw [sum_congr rfl fun k _ => sum_comm (s := univ) (t := univ), sum_comm]
    refine sum_congr rfl fun p _ => ?_
    rw [mul_sum]
    refine sum_congr rfl fun k _ => ?_
    rw [mul_sum]
    exact sum_congr rfl fun l _ => by ring
  have g : ∀ c d, ∑ e, Q c i * S d j * T e m * ∑ k, ∑ l, ∑ p, Q c k * S d l * T e p * x k l p
      = Q c i * S d j * ∑ k, ∑ l, Q c k * S d l * x k l m := by
    intro c d
    rw [← one_level T ht (fun p => ∑ k, ∑ l, Q c k * S d l * x k l p) m, mul_sum]
    exact sum_congr rfl fun e _ => by rw [f]; ring
  rw [sum_congr rfl fun c _ => sum_congr rfl fun d _ => g c d, one_level2 Q S hq hs (fun k l => x k l m) i j]

/-- Stacking the parts along one axis of several: `lo`, `hi` are the lower and upper half along that axis, `z` the other coordinates. -/
theorem halves_nd {Z : Type} (n : ℕ) (y lo hi : ℕ → Z → ℝ) (hlo : ∀ t < n, ∀ z, lo t z = y t z) (hhi : ∀ t < n, ∀ z, hi t z = y (n + t) z)
    (c : ℕ) (hc : c < 2 * n) (z : Z) : (if c < n then lo c z else 0) + (if n ≤ c then hi (c - n) z else 0) = y c z :=
  halves n (fun t => y t z) (fun t => lo t z) (fun t => hi t z) (fun t h => hlo t h z) (fun t h => hhi t h z) c hc

/-- Iterated inversion in any number of dimensions: `D i` is the index set of `A i`, `E i` that of the extended approximation. -/
theorem all_levels_nd {X : Type} (D E : ℕ → X → Prop) (A P R : ℕ → X → ℝ) (step : ℕ → (X → ℝ) → X → ℝ) (J : ℕ)
    (half : ∀ i x, D i x → E i x)
    (pad : ∀ i x, D i x → P i x = A i x)
    (base : ∀ x, D J x → R 0 x = A J x)
    (rec_ : ∀ t, t < J → ∀ x, D (J - t - 1) x → R (t + 1) x = step (J - t - 1) (R t) x)
    (local_ : ∀ i r s, (∀ x, D (i + 1) x → r x = s x) → step i r = step i s)
    (one : ∀ i, i < J → ∀ x, E i x → step i (A (i + 1)) x = P i x) :
    ∀ t, t ≤ J → ∀ x, D (J - t) x → R t x = A (J - t) x := by
  intro t
  induction t with
  | zero => intro _ x hx; exact base x hx
  | succ t ih =>
    intro ht x hx
    have h := ih (by omega)
    have e : J - t = (J - t - 1) + 1 := by omega
    have e2 : J - (t + 1) = J - t - 1 := by omega
    rw [e2] at hx ⊢
    rw [rec_ t (by omega) x hx, local_ (J - t - 1) (R t) (A (J - t - 1 + 1)) (by rw [← e]; exact h),
      one (J - t - 1) (by omega) x (half _ x hx), pad _ x hx]

end PTV
