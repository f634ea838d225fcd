import Mathlib

/-! The half-sample mirror index `symidx(q, n)` and the facts the verifier uses about it. -/
namespace PTV

/-- The representative of `q` in `[0, n)` under `q ↦ -1-q` and `q ↦ 2n-1-q`. -/
def symidx (q n : ℤ) : ℤ := if q % (2 * n) < n then q % (2 * n) else 2 * n - 1 - q % (2 * n)

theorem symidx_range (q n : ℤ) (h : 1 ≤ n) : 0 ≤ symidx q n ∧ symidx q n < n := by
  have h1 := Int.emod_nonneg q (show 2 * n ≠ 0 by omega)
  have h2 := Int.emod_lt_of_pos q (show 0 < 2 * n by omega)
  unfold symidx
  split <;> omega

theorem symidx_id (q n : ℤ) (h0 : 0 ≤ q) (h1 : q < n) : symidx q n = q := by
  unfold symidx
  rw [Int.emod_eq_of_lt h0 (by omega), if_pos h1]

theorem symidx_period (q n j : ℤ) : symidx (q + 2 * n * j) n = symidx q n := by
  unfold symidx
  rw [Int.add_mul_emod_self_left]

theorem symidx_neg (q n : ℤ) (h : 1 ≤ n) : symidx (-1 - q) n = symidx q n := by
  have h1 := Int.emod_nonneg q (show 2 * n ≠ 0 by omega)
  have h2 := Int.emod_lt_of_pos q (show 0 < 2 * n by omega)
  have e : (-1 - q) % (2 * n) = 2 * n - 1 - q % (2 * n) := by
    have h3 : -1 - q = (2 * n - 1 - q % (2 * n)) + 2 * n * (-(q / (2 * n)) - 1) := by
      have := Int.emod_add_mul_ediv q (2 * n)
      linarith [mul_sub (2 * n) (-(q / (2 * n))) 1, mul_neg (2 * n) (q / (2 * n))]
    rw [h3, Int.add_mul_emod_self_left, Int.emod_eq_of_lt] <;> omega
  unfold symidx
  rw [e]
  split <;> split <;> omega

theorem symidx_reflect (q n : ℤ) (h : 1 ≤ n) : symidx (2 * n - 1 - q) n = symidx q n := by
  have := symidx_period (-1 - q) n 1
  rw [symidx_neg q n h] at this
  rw [← this]
  congr 1
  ring

/-- every value is `q` or its reflection, up to the period -/
theorem symidx_form (q n : ℤ) : ∃ j : ℤ, symidx q n = q + 2 * n * j ∨ symidx q n = -1 - q + 2 * n * j := by
  have h3 := Int.emod_add_mul_ediv q (2 * n)
  unfold symidx
  split
  · exact ⟨-(q / (2 * n)), Or.inl (by linarith [mul_neg (2 * n) (q / (2 * n))])⟩
  · exact ⟨q / (2 * n) + 1, Or.inr (by linarith [mul_add (2 * n) (q / (2 * n)) 1])⟩

/-- mirroring first into a multiple of `n` changes nothing -/
theorem symidx_nested (x n k c : ℤ) (h : 1 ≤ n) : symidx (symidx x (k * n) + c * n) n = symidx (x + c * n) n := by
  obtain ⟨j, hj | hj⟩ := symidx_form x (k * n)
  · rw [hj, show x + 2 * (k * n) * j + c * n = (x + c * n) + 2 * n * (k * j) by ring, symidx_period]
  · rw [hj, show -1 - x + 2 * (k * n) * j + c * n = (-1 - (x + c * n)) + 2 * n * (k * j + c) by ring,
      symidx_period, symidx_neg _ _ h]

/-- the four unit-step values used as axioms -/
theorem symidx_values (q n : ℤ) (h : 1 ≤ n) :
    (0 ≤ -q - 1 → -q - 1 < n → symidx q n = -q - 1) ∧
    (0 ≤ 2 * n - 1 - q → 2 * n - 1 - q < n → symidx q n = 2 * n - 1 - q) ∧
    (0 ≤ q + 2 * n → q + 2 * n < n → symidx q n = q + 2 * n) ∧
    (0 ≤ q - 2 * n → q - 2 * n < n → symidx q n = q - 2 * n) := by
  refine ⟨fun a b => ?_, fun a b => ?_, fun a b => ?_, fun a b => ?_⟩
  · rw [← symidx_neg q n h, show -1 - q = -q - 1 by ring, symidx_id _ _ a b]
  · rw [← symidx_reflect q n h, symidx_id _ _ a b]
  · have := symidx_period q n 1
    rw [mul_one] at this
    rw [← this, symidx_id _ _ a b]
  · have := symidx_period q n (-1)
    rw [← this, show q + 2 * n * -1 = q - 2 * n by ring, symidx_id _ _ a b]

end PTV
