import Mathlib

/-! Theory of the periodic index used by the stationary transform, and the composition lemma:
the averaged periodic synthesis contract undoes the periodic (a-trous) analysis contract. -/
open Finset BigOperators
namespace PTV

/-- the representative of q modulo n -/
def pmod (q n : ℤ) : ℤ := q % n

theorem pmod_range (q n : ℤ) (h : 1 ≤ n) : 0 ≤ pmod q n ∧ pmod q n < n :=
  ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩

theorem pmod_id (q n : ℤ) (h0 : 0 ≤ q) (h1 : q < n) : pmod q n = q := Int.emod_eq_of_lt h0 h1

/-- multiples of the period vanish -/
theorem pmod_period (q n k : ℤ) : pmod (q + n * k) n = pmod q n := by
  unfold pmod; simp [Int.add_mul_emod_self_left]

/-- nested applications collapse when the inner period is a multiple of the outer one -/
theorem pmod_nested (c q r n k : ℤ) : pmod (c * pmod q (n * k) + r) n = pmod (c * q + r) n := by
  unfold pmod
  have h : q = n * k * (q / (n * k)) + q % (n * k) := (Int.mul_ediv_add_emod q (n * k)).symm
  conv_rhs => rw [h]
  have : c * (n * k * (q / (n * k)) + q % (n * k)) + r = (c * (q % (n * k)) + r) + n * (c * (k * (q / (n * k)))) := by ring
  rw [this, Int.add_mul_emod_self_left]

/-- values next to the fundamental range -/
theorem pmod_near (q n : ℤ) : (0 ≤ q + n → q + n < n → pmod q n = q + n) ∧ (0 ≤ q - n → q - n < n → pmod q n = q - n) := by
  constructor
  · intro h0 h1
    have := pmod_period q n 1
    rw [mul_one] at this
    rw [← this]; exact pmod_id _ _ h0 h1
  · intro h0 h1
    have := pmod_period q n (-1)
    rw [mul_neg, mul_one, ← sub_eq_add_neg] at this
    rw [← this]; exact pmod_id _ _ h0 h1

structure Bank where
  L : ℕ
  h : Bool → ℤ → ℝ
  g : Bool → ℤ → ℝ
  L_ge : 2 ≤ L
  L_even : 2 ∣ L
  h_supp : ∀ b k, (k < 0 ∨ (L : ℤ) ≤ k) → h b k = 0
  g_supp : ∀ b k, (k < 0 ∨ (L : ℤ) ≤ k) → g b k = 0

/-- Perfect reconstruction (the same condition as in PR.lean). -/
def PR (B : Bank) : Prop := ∀ i j : ℤ,
  ∑ᶠ m : ℤ, (B.g false (j + B.L - 2 - 2 * m) * B.h false (2 * m + 1 - i)
           + B.g true (j + B.L - 2 - 2 * m) * B.h true (2 * m + 1 - i)) = if i = j then 1 else 0

/-- no distortion: both phases together give twice the delayed unit pulse -/
theorem no_distortion (B : Bank) (hp : PR B) (s : ℤ) :
    ∑ k ∈ range B.L, ∑ b : Bool, B.g b k * B.h b (s - k) = if s = (B.L : ℤ) - 1 then 2 else 0 := by
  obtain ⟨H, hH⟩ := B.L_even
  have hL := B.L_ge
  let F : ℤ → ℝ := fun k => B.g false k * B.h false (s - k) + B.g true k * B.h true (s - k)
  have hF : ∀ k : ℤ, (k < 0 ∨ (B.L : ℤ) ≤ k) → F k = 0 := by
    intro k hk
    simp only [F, B.g_supp false k hk, B.g_supp true k hk]; ring
  have phase : ∀ p : ℤ, (p = 0 ∨ p = 1) → ∑ m ∈ range H, F (2 * m + p) = if s = (B.L : ℤ) - 1 then 1 else 0 := by
    intro p hpp
    have h1 := hp (p + B.L - 1 - s) p
    have hs : (Function.support fun m : ℤ => (B.g false (p + B.L - 2 - 2 * m) * B.h false (2 * m + 1 - (p + B.L - 1 - s))
           + B.g true (p + B.L - 2 - 2 * m) * B.h true (2 * m + 1 - (p + B.L - 1 - s)))) ⊆
        ((range H).map ⟨fun k : ℕ => (k : ℤ), Nat.cast_injective⟩ : Finset ℤ) := by
      intro m hm
      by_contra hc
      apply hm
      have e : 2 * m + 1 - (p + B.L - 1 - s) = s - (p + B.L - 2 - 2 * m) := by ring
      simp only []
      rw [e]
      apply hF
      by_contra hh
      push Not at hh
      apply hc
      simp only [coe_map, Function.Embedding.coeFn_mk, Set.mem_image, mem_coe, mem_range]
      refine ⟨m.toNat, ?_, ?_⟩ <;> omega
    rw [finsum_eq_sum_of_support_subset _ hs, sum_map] at h1
    rw [← sum_range_reflect]
    have e2 : (if p + (B.L : ℤ) - 1 - s = p then (1 : ℝ) else 0) = if s = (B.L : ℤ) - 1 then 1 else 0 := by
      congr 1; apply propext; constructor <;> intro h <;> omega
    rw [← e2, ← h1]
    apply sum_congr rfl
    intro m hm
    rw [mem_range] at hm
    simp only [Function.Embedding.coeFn_mk]
    have e3 : ((H - 1 - m : ℕ) : ℤ) = (H : ℤ) - 1 - m := by omega
    have e4 : 2 * ((H : ℤ) - 1 - m) + p = p + B.L - 2 - 2 * (m : ℤ) := by rw [hH]; push_cast; ring
    have e5 : 2 * (m : ℤ) + 1 - (p + B.L - 1 - s) = s - (p + B.L - 2 - 2 * m) := by ring
    rw [e3, e4, e5]
  have hsplit : ∀ (n : ℕ) (f : ℕ → ℝ), ∑ k ∈ range (2 * n), f k = ∑ m ∈ range n, (f (2 * m) + f (2 * m + 1)) := by
    intro n f
    induction n with
    | zero => simp
    | succ n ih => rw [show 2 * (n + 1) = 2 * n + 1 + 1 by ring, sum_range_succ, sum_range_succ, sum_range_succ, ih]; ring
  have : ∀ k : ℕ, ∑ b : Bool, B.g b k * B.h b (s - k) = F k := by
    intro k; simp only [Fintype.sum_bool, F]; ring
  simp_rw [this]
  rw [show range B.L = range (2 * H) by rw [hH], hsplit H (fun k => F k)]
  rw [sum_add_distrib]
  have p0 := phase 0 (Or.inl rfl)
  have p1 := phase 1 (Or.inr rfl)
  simp only [add_zero] at p0
  push_cast
  rw [p0, p1]
  split_ifs <;> norm_num

/-- analysis contract of one level with dilation d -/
noncomputable def anaP (B : Bank) (d n : ℤ) (x : ℤ → ℝ) (b : Bool) (u : ℤ) : ℝ :=
  ∑ k ∈ range B.L, B.h b k * x (pmod (u + d * ((B.L / 2 : ℕ) - k)) n)

/-- synthesis contract of one level with dilation d -/
noncomputable def synP (B : Bank) (d n : ℤ) (c : Bool → ℤ → ℝ) (t : ℤ) : ℝ :=
  (1 / 2) * ∑ b : Bool, ∑ k ∈ range B.L, B.g b k * c b (pmod (t + d * ((B.L / 2 : ℕ) - 1 - k)) n)

theorem swt_pr (B : Bank) (hp : PR B) (d n : ℤ) (x : ℤ → ℝ) (t : ℤ) (h0 : 0 ≤ t) (h1 : t < n) :
    synP B d n (anaP B d n x) t = x t := by
  obtain ⟨H, hH⟩ := B.L_even
  have hL := B.L_ge
  let X : ℤ → ℝ := fun s => x (pmod (t + d * (B.L - 1 - s)) n)
  have hin : ∀ (b : Bool), ∀ k ∈ range B.L, anaP B d n x b (pmod (t + d * ((B.L / 2 : ℕ) - 1 - k)) n)
      = ∑ s ∈ range (2 * B.L), B.h b ((s : ℤ) - k) * X s := by
    intro b k hk
    rw [mem_range] at hk
    unfold anaP
    have hsub : (range B.L).map (addLeftEmbedding k) ⊆ range (2 * B.L) := by
      intro i hi
      simp only [mem_map, mem_range, addLeftEmbedding_apply] at hi ⊢
      omega
    rw [← sum_subset hsub, sum_map]
    · apply sum_congr rfl
      intro j _
      have e1 : ((addLeftEmbedding k j : ℕ) : ℤ) - k = j := by simp [addLeftEmbedding_apply]
      rw [e1]
      congr 1
      simp only [X]
      congr 1
      have hh : (B.L / 2 : ℕ) = H := by omega
      have := pmod_nested 1 (t + d * ((B.L / 2 : ℕ) - 1 - k)) (d * ((B.L / 2 : ℕ) - j)) n 1
      rw [one_mul, one_mul, mul_one] at this
      rw [this, hh]
      congr 1
      simp only [addLeftEmbedding_apply]
      rw [hH]; push_cast; ring
    · intro s _ hs
      have : B.h b ((s : ℤ) - k) = 0 := by
        apply B.h_supp
        by_contra hc
        push Not at hc
        apply hs
        simp only [mem_map, mem_range, addLeftEmbedding_apply]
        exact ⟨s - k, by omega, by omega⟩
      rw [this, zero_mul]
  unfold synP
  have step : ∑ b : Bool, ∑ k ∈ range B.L, B.g b k * anaP B d n x b (pmod (t + d * ((B.L / 2 : ℕ) - 1 - k)) n)
      = ∑ s ∈ range (2 * B.L), X s * ∑ k ∈ range B.L, ∑ b : Bool, B.g b k * B.h b ((s : ℤ) - k) := by
    have e : ∀ b : Bool, ∑ k ∈ range B.L, B.g b k * anaP B d n x b (pmod (t + d * ((B.L / 2 : ℕ) - 1 - k)) n)
        = ∑ s ∈ range (2 * B.L), ∑ k ∈ range B.L, X s * (B.g b k * B.h b ((s : ℤ) - k)) := by
      intro b
      rw [sum_comm]
      apply sum_congr rfl
      intro k hk
      rw [hin b k hk, mul_sum]
      apply sum_congr rfl
      intro s _
      ring
    simp_rw [e]
    rw [sum_comm]
    apply sum_congr rfl
    intro s _
    rw [sum_comm, mul_sum]
    apply sum_congr rfl
    intro k _
    rw [mul_sum]
  rw [step]
  have hk : ∀ s ∈ range (2 * B.L), X s * ∑ k ∈ range B.L, ∑ b : Bool, B.g b k * B.h b ((s : ℤ) - k)
      = if s = B.L - 1 then 2 * x t else 0 := by
    intro s _
    rw [no_distortion B hp s]
    by_cases h : s = B.L - 1
    · have h' : (s : ℤ) = (B.L : ℤ) - 1 := by omega
      rw [if_pos h', if_pos h]
      simp only [X]
      rw [h', sub_self, mul_zero, add_zero, pmod_id t n h0 h1]
      ring
    · have h' : ¬ (s : ℤ) = (B.L : ℤ) - 1 := by omega
      rw [if_neg h', if_neg h, mul_zero]
  rw [sum_congr rfl hk, sum_ite_eq' , if_pos (by rw [mem_range]; omega)]
  ring
end PTV
