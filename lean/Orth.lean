/- Orthogonalisation (C15): from the verified contracts of the two methods to an orthonormal basis of the requested rows. -/
import Mathlib

open Finset Matrix

namespace PTV

variable {M : Type} [Fintype M]

/-- Verified contract of Gram-Schmidt: what is left of row `t` after removing its projections on the unit rows before it, divided by its length. -/
structure GS (p : ℕ) (a U : ℕ → M → ℝ) : Prop where
  unit : ∀ t < p, U t = (Real.sqrt ((a t - ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s) ⬝ᵥ (a t - ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s)))⁻¹ •
    (a t - ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s)

theorem gs_step (p : ℕ) (a U : ℕ → M → ℝ) (h : GS p a U) (li : LinearIndependent ℝ (fun t : Fin p => a t)) :
    ∀ t < p, (∀ s < t, U s ⬝ᵥ U t = 0) ∧ U t ⬝ᵥ U t = 1 ∧ U t ∈ Submodule.span ℝ (a '' {s | s ≤ t}) ∧ a t ∈ Submodule.span ℝ (U '' {s | s ≤ t}) := by
  intro t
  induction t using Nat.strong_induction_on with
  | _ t ih =>
  intro ht
  set V := a t - ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s with hV
  have hU : U t = (Real.sqrt (V ⬝ᵥ V))⁻¹ • V := h.unit t ht
  have on : ∀ s < t, ∀ u < t, U s ⬝ᵥ U u = if s = u then 1 else 0 := by
    intro s hs u hu
    rcases lt_trichotomy s u with hsu | hsu | hsu
    · rw [if_neg (by omega)]; exact (ih u hu (by omega)).1 s hsu
    · subst hsu; rw [if_pos rfl]; exact (ih s hs (by omega)).2.1
    · rw [if_neg (by omega), dotProduct_comm]; exact (ih s hs (by omega)).1 u hsu
  have orth : ∀ s < t, U s ⬝ᵥ V = 0 := by
    intro s hs
    rw [hV, dotProduct_sub, dotProduct_sum, sum_eq_single s]
    · rw [dotProduct_smul, on s hs s hs, if_pos rfl, smul_eq_mul, mul_one, dotProduct_comm, sub_self]
    · intro u hu hne
      rw [dotProduct_smul, on s hs u (mem_range.mp hu), if_neg (Ne.symm hne), smul_zero]
    · intro hh; exact absurd (mem_range.mpr hs) hh
  have mono : ∀ s < t, U s ∈ Submodule.span ℝ (a '' {u | u < t}) := by
    intro s hs
    refine Submodule.span_mono ?_ (ih s hs (by omega)).2.2.1
    rintro x ⟨u, hu, rfl⟩
    exact ⟨u, lt_of_le_of_lt hu hs, rfl⟩
  have sumin : ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s ∈ Submodule.span ℝ (a '' {u | u < t}) :=
    Submodule.sum_mem _ fun s hs => Submodule.smul_mem _ _ (mono s (mem_range.mp hs))
  have ne : V ≠ 0 := by
    intro h0
    have e : a t = ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s := by rw [hV, sub_eq_zero] at h0; exact h0
    have hin : a t ∈ Submodule.span ℝ (a '' {u | u < t}) := by rw [e]; exact sumin
    have := li.notMem_span_image (s := {u : Fin p | (u : ℕ) < t}) (x := ⟨t, ht⟩) (by simp)
    apply this
    convert hin using 2
    ext x
    constructor
    · rintro ⟨u, hu, rfl⟩; exact ⟨u, hu, rfl⟩
    · rintro ⟨u, hu, rfl⟩
      have hu' : u < t := hu
      exact ⟨⟨u, by omega⟩, hu, rfl⟩
  have pos : 0 < V ⬝ᵥ V := lt_of_le_of_ne (by unfold dotProduct; exact sum_nonneg fun i _ => mul_self_nonneg _)
    (fun h0 => ne (dotProduct_self_eq_zero.mp h0.symm))
  have sq : Real.sqrt (V ⬝ᵥ V) ≠ 0 := (Real.sqrt_pos.mpr pos).ne'
  refine ⟨?_, ?_, ?_, ?_⟩
  · intro s hs
    rw [hU, dotProduct_smul, orth s hs, smul_zero]
  · rw [hU, dotProduct_smul, smul_dotProduct, smul_eq_mul, smul_eq_mul]
    have := Real.mul_self_sqrt pos.le
    field_simp
    rw [pow_two]; exact this.symm
  · rw [hU]
    refine Submodule.smul_mem _ _ (Submodule.sub_mem _ (Submodule.subset_span ⟨t, le_refl t, rfl⟩) ?_)
    refine Submodule.span_mono ?_ sumin
    rintro x ⟨u, hu, rfl⟩
    have hu' : u < t := hu
    exact ⟨u, hu'.le, rfl⟩
  · have e : a t = Real.sqrt (V ⬝ᵥ V) • U t + ∑ s ∈ range t, (a t ⬝ᵥ U s) • U s := by
      rw [hU, smul_smul, mul_inv_cancel₀ sq, one_smul, hV, sub_add_cancel]
    rw [e]
    refine Submodule.add_mem _ (Submodule.smul_mem _ _ (Submodule.subset_span ⟨t, le_refl t, rfl⟩)) (Submodule.sum_mem _ fun s hs => Submodule.smul_mem _ _ (Submodule.subset_span ⟨s, (mem_range.mp hs).le, rfl⟩))

/-- The rows `a 0, .., a (p-1)` and the rows `U 0, .., U (p-1)`: the latter are an orthonormal basis of the span of the former. -/
structure Basis' (p : ℕ) (a U : ℕ → M → ℝ) : Prop where
  orth : ∀ s < p, ∀ t < p, U s ⬝ᵥ U t = if s = t then 1 else 0
  span : Submodule.span ℝ (U '' {t | t < p}) = Submodule.span ℝ (a '' {t | t < p})

/-- Gram-Schmidt on linearly independent rows. -/
theorem gram_schmidt (p : ℕ) (a U : ℕ → M → ℝ) (h : GS p a U) (li : LinearIndependent ℝ (fun t : Fin p => a t)) : Basis' p a U := by
  have key := gs_step p a U h li
  constructor
  · intro s hs t ht
    rcases lt_trichotomy s t with hst | hst | hst
    · rw [if_neg (by omega)]; exact (key t ht).1 s hst
    · subst hst; rw [if_pos rfl]; exact (key s hs).2.1
    · rw [if_neg (by omega), dotProduct_comm]; exact (key s hs).1 t hst
  · apply le_antisymm
    · rw [Submodule.span_le]
      rintro x ⟨t, ht, rfl⟩
      have ht' : t < p := ht
      refine Submodule.span_mono ?_ (key t ht').2.2.1
      rintro x ⟨u, hu, rfl⟩
      have hu' : u ≤ t := hu
      exact ⟨u, lt_of_le_of_lt hu' ht', rfl⟩
    · rw [Submodule.span_le]
      rintro x ⟨t, ht, rfl⟩
      have ht' : t < p := ht
      refine Submodule.span_mono ?_ (key t ht').2.2.2
      rintro x ⟨u, hu, rfl⟩
      have hu' : u ≤ t := hu
      exact ⟨u, lt_of_le_of_lt hu' ht', rfl⟩

/-- The reduced QR decomposition (contract of torch.linalg.qr) of the matrix whose columns are linearly independent rows. -/
theorem qr_basis (p : ℕ) (a U : ℕ → M → ℝ) (R : Matrix (Fin p) (Fin p) ℝ)
    (hx : ∀ c (t : Fin p), a t c = ∑ s : Fin p, U s c * R s t)
    (hq : ∀ s t : Fin p, ∑ c, U s c * U t c = if s = t then 1 else 0)
    (li : LinearIndependent ℝ (fun t : Fin p => a t)) : Basis' p a U := by
  set X : Matrix M (Fin p) ℝ := Matrix.of fun c t => a t c with hX
  set Q : Matrix M (Fin p) ℝ := Matrix.of fun c t => U t c with hQ
  have e : X = Q * R := by
    ext c t; simp only [hX, hQ, Matrix.mul_apply, Matrix.of_apply]; exact hx c t
  have inj : Function.Injective R.mulVec := by
    intro v w hvw
    have : X.mulVec v = X.mulVec w := by rw [e, ← Matrix.mulVec_mulVec, ← Matrix.mulVec_mulVec]; exact congrArg _ hvw
    have z : ∑ t : Fin p, (v t - w t) • a t = 0 := by
      ext c
      have := congrFun this c
      simp only [Matrix.mulVec, dotProduct, hX, Matrix.of_apply] at this
      simp only [Finset.sum_apply, Pi.smul_apply, smul_eq_mul, Pi.zero_apply]
      rw [← sub_eq_zero, ← Finset.sum_sub_distrib] at this
      rw [← this]
      exact Finset.sum_congr rfl fun t _ => by ring
    have := Fintype.linearIndependent_iff.mp li _ z
    ext t; have := this t; linarith
  have hu : IsUnit R := Matrix.mulVec_injective_iff_isUnit.mp inj
  have e2 : Q = X * R⁻¹ := by rw [e, Matrix.mul_assoc, Matrix.mul_nonsing_inv _ ((Matrix.isUnit_iff_isUnit_det _).mp hu), Matrix.mul_one]
  constructor
  · intro s hs t ht
    have := hq ⟨s, hs⟩ ⟨t, ht⟩
    simp only [Fin.mk.injEq] at this
    exact this
  · apply le_antisymm
    · rw [Submodule.span_le]
      rintro x ⟨t, ht, rfl⟩
      have ht' : t < p := ht
      have : U t = ∑ s : Fin p, R⁻¹ s ⟨t, ht'⟩ • a s := by
        ext c
        have := congrFun (congrFun e2 c) ⟨t, ht'⟩
        simp only [hX, hQ, Matrix.mul_apply, Matrix.of_apply] at this
        rw [this, Finset.sum_apply]
        exact Finset.sum_congr rfl fun s _ => by simp [mul_comm]
      rw [this]
      exact Submodule.sum_mem _ fun s _ => Submodule.smul_mem _ _ (Submodule.subset_span ⟨s, s.2, rfl⟩)
    · rw [Submodule.span_le]
      rintro x ⟨t, ht, rfl⟩
      have ht' : t < p := ht
      have : a t = ∑ s : Fin p, R s ⟨t, ht'⟩ • U s := by
        ext c
        rw [hx c ⟨t, ht'⟩, Finset.sum_apply]
        exact Finset.sum_congr rfl fun s _ => by simp [mul_comm]
      rw [this]
      exact Submodule.sum_mem _ fun s _ => Submodule.smul_mem _ _ (Submodule.subset_span ⟨s, s.2, rfl⟩)

/-- The verified result of either method: row `rho t` is `U t`, the other rows are as before.  This is the contract of `orthogonalize` that Boundary.lean uses. -/
theorem replaced_rows {N : Type} [DecidableEq N] (A Q : N → M → ℝ) (p : ℕ) (rho : ℕ → N) (inj : ∀ s < p, ∀ t < p, rho s = rho t → s = t)
    (U : ℕ → M → ℝ) (b : Basis' p (fun t => A (rho t)) U)
    (req : ∀ t < p, Q (rho t) = U t) (other : ∀ i, (∀ t < p, rho t ≠ i) → Q i = A i) :
    (∀ i, ¬ (∃ t, t < p ∧ rho t = i) → Q i = A i) ∧
    (∀ i, (∃ t, t < p ∧ rho t = i) → Q i ∈ Submodule.span ℝ {v | ∃ j, (∃ t, t < p ∧ rho t = j) ∧ v = A j}) ∧
    (∀ i j, (∃ t, t < p ∧ rho t = i) → (∃ t, t < p ∧ rho t = j) → Q i ⬝ᵥ Q j = if i = j then 1 else 0) := by
  refine ⟨?_, ?_, ?_⟩
  · intro i hi
    exact other i fun t ht he => hi ⟨t, ht, he⟩
  · rintro i ⟨t, ht, rfl⟩
    rw [req t ht]
    have : U t ∈ Submodule.span ℝ (U '' {t | t < p}) := Submodule.subset_span ⟨t, ht, rfl⟩
    rw [b.span] at this
    refine Submodule.span_mono ?_ this
    rintro x ⟨s, hs, rfl⟩
    exact ⟨rho s, ⟨s, hs, rfl⟩, rfl⟩
  · rintro i j ⟨s, hs, rfl⟩ ⟨t, ht, rfl⟩
    rw [req s hs, req t ht, b.orth s hs t ht]
    by_cases h : s = t
    · subst h; simp
    · rw [if_neg h, if_neg fun he => h (inj s hs t ht he)]

end PTV
