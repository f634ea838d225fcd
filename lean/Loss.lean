import Mathlib

/-! The losses: a sum of squared differences vanishes exactly when nothing differs, and the verified
coefficient sums are the coefficients of the filter-bank product polynomials. -/
namespace PTV

open Finset Polynomial

theorem loss_zero (n : ℕ) (p t : ℕ → ℝ) :
    ∑ i ∈ range n, (p i - t i) * (p i - t i) = 0 ↔ ∀ i < n, p i = t i := by
  rw [sum_eq_zero_iff_of_nonneg (fun i _ => mul_self_nonneg _)]
  constructor
  · intro h i hi
    have := h i (mem_range.2 hi)
    linarith [mul_self_eq_zero.1 this]
  · intro h i hi
    rw [h i (mem_range.1 hi)]
    ring

theorem losses_zero (a b : ℝ) (ha : 0 ≤ a) (hb : 0 ≤ b) : a + b = 0 ↔ a = 0 ∧ b = 0 := by
  constructor
  · intro h
    constructor <;> linarith
  · rintro ⟨h, k⟩
    linarith

theorem loss_nonneg (n : ℕ) (p t : ℕ → ℝ) : 0 ≤ ∑ i ∈ range n, (p i - t i) * (p i - t i) :=
  sum_nonneg (fun _ _ => mul_self_nonneg _)

/-- the polynomial of a filter -/
noncomputable def poly (L : ℕ) (h : ℕ → ℝ) : ℝ[X] := ∑ k ∈ range L, monomial k (h k)

theorem poly_coeff (L : ℕ) (h : ℕ → ℝ) (k : ℕ) : (poly L h).coeff k = if k < L then h k else 0 := by
  simp [poly, coeff_monomial]

theorem product_coeff (L : ℕ) (h f : ℕ → ℝ) (j : ℕ) :
    (poly L h * poly L f).coeff j = ∑ k ∈ range L, h k * (if k ≤ j ∧ j - k < L then f (j - k) else 0) := by
  rw [coeff_mul, Finset.Nat.sum_antidiagonal_eq_sum_range_succ_mk]
  simp only [poly_coeff]
  have hz : ∀ N, (∀ k, (k < L ∧ k ≤ j) → k < N) →
      ∑ k ∈ range N, (if k < L ∧ k ≤ j then h k * (if j - k < L then f (j - k) else 0) else 0)
        = ∑ k ∈ (range L).filter (fun k => k ≤ j), h k * (if j - k < L then f (j - k) else 0) := by
    intro N hN
    rw [← sum_filter]
    apply sum_congr _ (fun _ _ => rfl)
    ext k
    simp only [mem_filter, mem_range]
    constructor
    · rintro ⟨_, a, b⟩; exact ⟨a, b⟩
    · rintro ⟨a, b⟩; exact ⟨hN k ⟨a, b⟩, a, b⟩
  have e1 := hz (j + 1) (fun k hk => by omega)
  have e2 := hz L (fun k hk => hk.1)
  have h1 : ∑ k ∈ range (j + 1), (if k < L then h k else 0) * (if j - k < L then f (j - k) else 0)
      = ∑ k ∈ range (j + 1), (if k < L ∧ k ≤ j then h k * (if j - k < L then f (j - k) else 0) else 0) := by
    apply sum_congr rfl
    intro k hk
    have : k ≤ j := by simpa [Nat.lt_succ_iff] using hk
    by_cases hL : k < L <;> simp [hL, this]
  have h2 : ∑ k ∈ range L, h k * (if k ≤ j ∧ j - k < L then f (j - k) else 0)
      = ∑ k ∈ range L, (if k < L ∧ k ≤ j then h k * (if j - k < L then f (j - k) else 0) else 0) := by
    apply sum_congr rfl
    intro k hk
    have : k < L := by simpa using hk
    by_cases hj : k ≤ j <;> simp [this, hj]
  rw [h1, h2, e1, e2]

/-- `H(-z)` has the coefficients `(-1)^k h k` -/
theorem alternate (L : ℕ) (h : ℕ → ℝ) : (poly L h).comp (-X) = poly L (fun k => (-1) ^ k * h k) := by
  have hs : (poly L h).comp (-X) = ∑ k ∈ range L, (monomial k (h k)).comp (-X) := by
    unfold poly
    exact map_sum (compRingHom (-X : ℝ[X])) _ _
  rw [hs]
  unfold poly
  apply sum_congr rfl
  intro k _
  rw [monomial_comp, neg_pow, ← C_mul_X_pow_eq_monomial, map_mul, map_pow, map_neg, map_one]
  ring

/-- the signs used by the code are `(-1)^k` up to one common sign -/
theorem signs (L k : ℕ) (h : k < L) : (-1 : ℝ) ^ (L - 1 - k) = (-1) ^ (L - 1) * (-1) ^ k := by
  have : L - 1 = (L - 1 - k) + k := by omega
  conv_rhs => rw [this, pow_add, mul_assoc, ← pow_add, ← two_mul, pow_mul]
  simp

end PTV
