import Mathlib

/-! Composition lemmas over the contracts: the synthesis contract applied to the coefficients
described by the analysis contract returns the input, for every filter bank with the perfect
reconstruction property and every boundary extension. -/
open Finset BigOperators
namespace PTV

/-- A two-channel filter bank: taps outside `[0, L)` are zero. -/
structure Bank where
  L : ℕ
  h : Bool → ℤ → ℝ
  g : Bool → ℤ → ℝ
  L_ge : 2 ≤ L
  L_even : 2 ∣ L
  h_supp : ∀ b k, (k < 0 ∨ (L : ℤ) ≤ k) → h b k = 0
  g_supp : ∀ b k, (k < 0 ∨ (L : ℤ) ≤ k) → g b k = 0

/-- Perfect reconstruction with delay `L - 2` (the crop) and phase 1 (the first output index). -/
def PR (B : Bank) : Prop := ∀ i j : ℤ,
  ∑ᶠ m : ℤ, (B.g false (j + B.L - 2 - 2 * m) * B.h false (2 * m + 1 - i)
           + B.g true (j + B.L - 2 - 2 * m) * B.h true (2 * m + 1 - i)) = if i = j then 1 else 0

/-- Analysis contract: coefficient `m` of band `b` of the extended signal `e`. -/
def ana (B : Bank) (b : Bool) (e : ℤ → ℝ) (m : ℤ) : ℝ :=
  ∑ k ∈ range B.L, B.h b k * e (2 * m + 1 - k)

/-- Synthesis contract: sample `j` from `M` coefficients per band. -/
def syn (B : Bank) (M : ℕ) (c : Bool → ℤ → ℝ) (j : ℤ) : ℝ :=
  ∑ b : Bool, ∑ m ∈ range M, B.g b (j + B.L - 2 - 2 * m) * c b m

/-- number of coefficients of one level -/
def half (B : Bank) (n : ℕ) : ℕ := (n + B.L - 1) / 2

/-- the product of an analysis and a synthesis filter, summed over the coefficients, is the unit pulse -/
theorem kernel (B : Bank) (hp : PR B) (n : ℕ) (i j : ℤ) (h0 : 0 ≤ j) (h1 : j < n) :
    ∑ m ∈ range (half B n), ∑ b : Bool, B.g b (j + B.L - 2 - 2 * m) * B.h b (2 * m + 1 - i)
      = if i = j then 1 else 0 := by
  rw [← hp i j]
  have hL := B.L_ge
  have hs : (Function.support fun m : ℤ => (B.g false (j + B.L - 2 - 2 * m) * B.h false (2 * m + 1 - i)
           + B.g true (j + B.L - 2 - 2 * m) * B.h true (2 * m + 1 - i))) ⊆
      ((range (half B n)).map ⟨fun k : ℕ => (k : ℤ), Nat.cast_injective⟩ : Finset ℤ) := by
    intro m hm
    by_contra hc
    apply hm
    have hout : (j + B.L - 2 - 2 * m < 0) ∨ ((B.L : ℤ) ≤ j + B.L - 2 - 2 * m) := by
      by_contra hh
      push Not at hh
      apply hc
      simp only [coe_map, Function.Embedding.coeFn_mk, Set.mem_image, mem_coe, mem_range]
      refine ⟨m.toNat, ?_, ?_⟩
      · unfold half
        omega
      · omega
    simp only []
    rw [B.g_supp false _ hout, B.g_supp true _ hout]
    ring
  rw [finsum_eq_sum_of_support_subset _ hs, sum_map]
  apply sum_congr rfl
  intro m _
  simp only [Fintype.sum_bool, Function.Embedding.coeFn_mk]
  ring

def emb (c : ℤ) : ℕ ↪ ℤ := ⟨fun k : ℕ => c - k, fun a b hab => by simpa using hab⟩
theorem emb_apply (c : ℤ) (k : ℕ) : emb c k = c - k := rfl

/-- the same sum with the analysis index written as in the contract -/
theorem one_axis (B : Bank) (hp : PR B) (n : ℕ) (f : ℤ → ℝ) (j : ℤ) (h0 : 0 ≤ j) (h1 : j < n) :
    syn B (half B n) (fun b m => ana B b f m) j = f j := by
  have hL := B.L_ge
  -- all positions that can be read
  let I : Finset ℤ := Finset.Icc (1 - (B.L : ℤ)) (2 * (half B n : ℤ) + 1)
  have hana : ∀ b : Bool, ∀ m ∈ range (half B n), ana B b f m = ∑ i ∈ I, B.h b (2 * m + 1 - i) * f i := by
    intro b m hm
    rw [mem_range] at hm
    unfold ana
    have hsub : (range B.L).map (emb (2 * (m : ℤ) + 1)) ⊆ I := by
      intro i hi
      simp only [mem_map, mem_range, emb_apply] at hi
      obtain ⟨k, hk, rfl⟩ := hi
      simp only [I, mem_Icc]
      constructor <;> omega
    rw [← sum_subset hsub]
    · rw [sum_map]
      apply sum_congr rfl
      intro k _
      rw [emb_apply]
      congr 2
      ring
    · intro i _ hi
      rw [B.h_supp, zero_mul]
      by_contra hh
      push Not at hh
      apply hi
      simp only [mem_map, mem_range, emb_apply]
      exact ⟨(2 * (m : ℤ) + 1 - i).toNat, by omega, by omega⟩
  unfold syn
  rw [sum_comm]
  have : ∀ m ∈ range (half B n), ∑ b : Bool, B.g b (j + B.L - 2 - 2 * m) * ana B b f m
      = ∑ i ∈ I, (∑ b : Bool, B.g b (j + B.L - 2 - 2 * m) * B.h b (2 * m + 1 - i)) * f i := by
    intro m hm
    simp only [sum_mul]
    rw [sum_comm]
    apply sum_congr rfl
    intro b _
    rw [hana b m hm, mul_sum]
    apply sum_congr rfl
    intro i _
    ring
  rw [sum_congr rfl this, sum_comm]
  simp only [← sum_mul]
  rw [sum_congr rfl (fun i _ => by rw [kernel B hp n i j h0 h1])]
  simp only [ite_mul, one_mul, zero_mul]
  rw [sum_ite_eq' I j f, if_pos]
  simp only [I, mem_Icc]
  unfold half
  constructor <;> omega

/-- C03, one level: reconstructing the analysis of any extension returns the extended signal on `[0, n)`. -/
theorem pr1 (B : Bank) (hp : PR B) (n : ℕ) (f : ℤ → ℝ) (j : ℤ) (h0 : 0 ≤ j) (h1 : j < n) :
    ∑ b : Bool, ∑ m ∈ range (half B n), B.g b (j + B.L - 2 - 2 * m) *
      (∑ k ∈ range B.L, B.h b k * f (2 * m + 1 - k)) = f j := one_axis B hp n f j h0 h1

/-- C05/C09, one level, two axes. -/
theorem pr2 (B : Bank) (hp : PR B) (n₁ n₂ : ℕ) (f : ℤ → ℤ → ℝ) (j₁ j₂ : ℤ)
    (h0 : 0 ≤ j₁) (h1 : j₁ < n₁) (h2 : 0 ≤ j₂) (h3 : j₂ < n₂) :
    ∑ b₁ : Bool, ∑ b₂ : Bool, ∑ m₁ ∈ range (half B n₁), ∑ m₂ ∈ range (half B n₂),
      (B.g b₁ (j₁ + B.L - 2 - 2 * m₁) * B.g b₂ (j₂ + B.L - 2 - 2 * m₂)) *
      (∑ k₁ ∈ range B.L, ∑ k₂ ∈ range B.L, (B.h b₁ k₁ * B.h b₂ k₂) * f (2 * m₁ + 1 - k₁) (2 * m₂ + 1 - k₂)) = f j₁ j₂ := by
  have inner : ∀ x : ℤ, ∑ b₂ : Bool, ∑ m₂ ∈ range (half B n₂), B.g b₂ (j₂ + B.L - 2 - 2 * m₂) *
      (∑ k₂ ∈ range B.L, B.h b₂ k₂ * f x (2 * m₂ + 1 - k₂)) = f x j₂ := fun x => pr1 B hp n₂ (f x) j₂ h2 h3
  rw [← pr1 B hp n₁ (fun x => f x j₂) j₁ h0 h1]
  apply sum_congr rfl
  intro b₁ _
  rw [sum_comm]
  apply sum_congr rfl
  intro m₁ _
  have e : ∀ k₁ : ℕ, f (2 * m₁ + 1 - k₁) j₂ = _ := fun k₁ => (inner _).symm
  simp only [e, mul_sum]
  symm
  rw [sum_comm]
  apply sum_congr rfl
  intro b₂ _
  rw [sum_comm]
  apply sum_congr rfl
  intro m₂ _
  apply sum_congr rfl
  intro k₁ _
  apply sum_congr rfl
  intro k₂ _
  ring

/-- C07/C09, one level, three axes. -/
theorem pr3 (B : Bank) (hp : PR B) (n₁ n₂ n₃ : ℕ) (f : ℤ → ℤ → ℤ → ℝ) (j₁ j₂ j₃ : ℤ)
    (h0 : 0 ≤ j₁) (h1 : j₁ < n₁) (h2 : 0 ≤ j₂) (h3 : j₂ < n₂) (h4 : 0 ≤ j₃) (h5 : j₃ < n₃) :
    ∑ b₁ : Bool, ∑ b₂ : Bool, ∑ b₃ : Bool,
      ∑ m₁ ∈ range (half B n₁), ∑ m₂ ∈ range (half B n₂), ∑ m₃ ∈ range (half B n₃),
      (B.g b₁ (j₁ + B.L - 2 - 2 * m₁) * (B.g b₂ (j₂ + B.L - 2 - 2 * m₂) * B.g b₃ (j₃ + B.L - 2 - 2 * m₃))) *
      (∑ k₁ ∈ range B.L, ∑ k₂ ∈ range B.L, ∑ k₃ ∈ range B.L, (B.h b₁ k₁ * (B.h b₂ k₂ * B.h b₃ k₃)) *
        f (2 * m₁ + 1 - k₁) (2 * m₂ + 1 - k₂) (2 * m₃ + 1 - k₃)) = f j₁ j₂ j₃ := by
  have inner := fun x : ℤ => pr2 B hp n₂ n₃ (f x) j₂ j₃ h2 h3 h4 h5
  rw [← pr1 B hp n₁ (fun x => f x j₂ j₃) j₁ h0 h1]
  apply sum_congr rfl
  intro b₁ _
  rw [sum_congr rfl (fun b₂ _ => sum_comm), sum_comm]
  apply sum_congr rfl
  intro m₁ _
  have e : ∀ k₁ : ℕ, f (2 * m₁ + 1 - k₁) j₂ j₃ = _ := fun k₁ => (inner _).symm
  simp only [e, mul_sum]
  symm
  rw [sum_comm]
  apply sum_congr rfl
  intro b₂ _
  rw [sum_comm]
  apply sum_congr rfl
  intro b₃ _
  rw [sum_comm]
  apply sum_congr rfl
  intro m₂ _
  rw [sum_comm]
  apply sum_congr rfl
  intro m₃ _
  apply sum_congr rfl
  intro k₁ _
  apply sum_congr rfl
  intro k₂ _
  apply sum_congr rfl
  intro k₃ _
  ring

/-- Sizes: analysed coefficients satisfy the precondition of the synthesis contract. -/
theorem sizes (B : Bank) (n : ℕ) (hn : 1 ≤ n) :
    1 ≤ half B n ∧ (2 * half B n - (B.L - 2) = n ∨ (2 * half B n - (B.L - 2) = n + 1 ∧ n % 2 = 1)) := by
  have := B.L_ge
  obtain ⟨q, hq⟩ := B.L_even
  unfold half
  omega

/-- All levels: if every synthesis level undoes its analysis level, the iterated synthesis undoes the iterated analysis.
`A i` is the approximation after `i` levels (defined on `dom i`), `R t` the reconstruction after `t` synthesis levels,
`step i r` the synthesis contract at level `i` applied to the approximation `r` and the analysed details. -/
theorem levels {X : Type} (dom : ℕ → Set X) (A : ℕ → X → ℝ) (R : ℕ → X → ℝ) (step : ℕ → (X → ℝ) → X → ℝ) (J : ℕ)
    (base : R 0 = A J)
    (rec_ : ∀ t, t < J → R (t + 1) = step (J - t - 1) (R t))
    -- the contract reads its argument on the coefficient range only
    (local_ : ∀ i r s, (∀ x ∈ dom (i + 1), r x = s x) → step i r = step i s)
    (one : ∀ i, i < J → ∀ x ∈ dom i, step i (A (i + 1)) x = A i x) :
    ∀ t, t ≤ J → ∀ x ∈ dom (J - t), R t x = A (J - t) x := by
  intro t
  induction t with
  | zero => intro _ x _; simp [base]
  | succ t ih =>
    intro ht x hx
    have h := ih (by omega)
    have e : J - t = (J - t - 1) + 1 := by omega
    rw [rec_ t (by omega), local_ (J - t - 1) (R t) (A (J - t - 1 + 1)) (by rw [← e]; exact h)]
    have e2 : J - (t + 1) = J - t - 1 := by omega
    rw [e2] at hx ⊢
    exact one (J - t - 1) (by omega) x hx

end PTV
