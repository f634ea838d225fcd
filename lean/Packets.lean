/- C20, C21: the tree of wavelet packets and the orders of a level.  Words over {a, d} are lists of Booleans (d = true). -/
import Mathlib

namespace PTV

/-- Every stored node is determined by its path; the reconstruction from unmodified leaves gives every node back.
`T w` node contents, `R w` contents after the reconstruction (cropped to `dom w`), `S` synthesis of the bands of one node. -/
theorem tree {C X : Type} (dom : List C → Set X) (T R : List C → X → ℝ) (S : List C → (C → X → ℝ) → X → ℝ) (M : ℕ)
    (leaf : ∀ w, w.length = M → R w = T w)
    (node : ∀ w, w.length < M → ∀ x ∈ dom w, R w x = S w (fun c => R (w ++ [c])) x)
    -- the synthesis reads its arguments on the coefficient range only
    (local_ : ∀ w f g, (∀ c, ∀ x ∈ dom (w ++ [c]), f c x = g c x) → S w f = S w g)
    (one : ∀ w, w.length < M → ∀ x ∈ dom w, S w (fun c => T (w ++ [c])) x = T w x) :
    ∀ k w, w.length + k = M → ∀ x ∈ dom w, R w x = T w x := by
  intro k
  induction k with
  | zero => intro w h x _; rw [leaf w (by omega)]
  | succ k ih =>
    intro w h x hx
    rw [node w (by omega) x hx, local_ w _ (fun c => T (w ++ [c])) (fun c y hy => ih (w ++ [c]) (by simp; omega) y hy)]
    exact one w (by omega) x hx

/-- The verified enumeration: the reflected list. -/
def gray : ℕ → ℕ → List Bool
  | 0, _ => []
  | l + 1, t => if t < 2 ^ l then false :: gray l t else true :: gray l (2 ^ (l + 1) - 1 - t)

/-- Position of the frequency band of a node: a low-pass child of an even band comes first, of an odd band second. -/
def bandFrom : ℕ → List Bool → ℕ
  | b, [] => b
  | b, c :: w => bandFrom (if b % 2 = 0 then 2 * b + c.toNat else 2 * b + 1 - c.toNat) w

def band (w : List Bool) : ℕ := bandFrom 0 w

theorem bandFrom_eq (w : List Bool) : ∀ b, band w < 2 ^ w.length ∧
    bandFrom b w = 2 ^ w.length * b + (if b % 2 = 0 then band w else 2 ^ w.length - 1 - band w) := by
  induction w with
  | nil => intro b; simp [band, bandFrom]
  | cons c w ih =>
    intro b
    have h1 := (ih 0).1
    have hb : ∀ b', bandFrom b' w = 2 ^ w.length * b' + (if b' % 2 = 0 then band w else 2 ^ w.length - 1 - band w) := fun b' => (ih b').2
    have p : 2 ^ (w.length + 1) = 2 * 2 ^ w.length := by ring
    have hc : band (c :: w) = if c then 2 * 2 ^ w.length - 1 - band w else band w := by
      cases c
      · simp [band, bandFrom]
      · have := hb 1
        simp only [band, bandFrom] at this ⊢
        simp at this ⊢
        rw [this]; simp only [band] at h1 ⊢; omega
    constructor
    · rw [hc, List.length_cons, p]; cases c <;> simp <;> omega
    · rw [hc, List.length_cons, p, bandFrom, hb]
      generalize 2 ^ w.length = q at *
      have e2 : q * (2 * b) = 2 * q * b := by ring
      have e3 : q * (2 * b + 1) = 2 * q * b + q := by ring
      rcases Nat.mod_two_eq_zero_or_one b with h | h <;> cases c <;> simp [h, e2, e3, Nat.add_mod] <;> omega

theorem band_lt (w : List Bool) : band w < 2 ^ w.length := (bandFrom_eq w 0).1

theorem band_cons (c : Bool) (w : List Bool) : band (c :: w) = if c then 2 ^ (w.length + 1) - 1 - band w else band w := by
  have p : 2 ^ (w.length + 1) = 2 * 2 ^ w.length := by ring
  have h := (bandFrom_eq w 1).2
  have l := band_lt w
  cases c
  · simp [band, bandFrom]
  · simp only [band, bandFrom] at h l ⊢
    simp at h ⊢
    rw [h, p]; omega

theorem gray_length (l : ℕ) : ∀ t, (gray l t).length = l := by
  induction l with
  | zero => intro t; simp [gray]
  | succ l ih => intro t; simp only [gray]; split <;> simp [ih]

/-- The t-th listed word is the node of the t-th frequency band. -/
theorem gray_band (l : ℕ) : ∀ t, t < 2 ^ l → band (gray l t) = t := by
  induction l with
  | zero => intro t h; simp [gray, band, bandFrom] at *; omega
  | succ l ih =>
    intro t h
    have p : 2 ^ (l + 1) = 2 * 2 ^ l := by ring
    simp only [gray]
    split
    · rename_i h2; rw [band_cons]; simpa using ih t h2
    · rename_i h2
      rw [band_cons, gray_length, ih _ (by omega)]; simp; omega

/-- Every word of the level is listed (once, by `gray_band`). -/
theorem gray_all (w : List Bool) : gray w.length (band w) = w := by
  induction w with
  | nil => simp [gray]
  | cons c w ih =>
    have h := band_lt w
    have p : 2 ^ (w.length + 1) = 2 * 2 ^ w.length := by ring
    rw [band_cons, List.length_cons]
    cases c
    · simp [gray, h, ih]
    · have h3 : ¬ (2 ^ (w.length + 1) - 1 - band w < 2 ^ w.length) := by omega
      have h4 : 2 ^ (w.length + 1) - 1 - (2 ^ (w.length + 1) - 1 - band w) = band w := by omega
      simp [gray, h3, h4, ih]

theorem gray_inj (l s t : ℕ) (hs : s < 2 ^ l) (ht : t < 2 ^ l) (h : gray l s = gray l t) : s = t := by
  rw [← gray_band l s hs, h, gray_band l t ht]

/-- 2-D: the word of row s and column t of the grid; every word over the four letters (row letter, column letter) stands at exactly one place. -/
theorem grid_all (w : List (Bool × Bool)) :
    gray w.length (band (w.map Prod.fst)) = w.map Prod.fst ∧ gray w.length (band (w.map Prod.snd)) = w.map Prod.snd := by
  constructor
  · simpa using gray_all (w.map Prod.fst)
  · simpa using gray_all (w.map Prod.snd)

theorem grid_inj (v w : List (Bool × Bool)) (h1 : v.map Prod.fst = w.map Prod.fst) (h2 : v.map Prod.snd = w.map Prod.snd) : v = w := by
  induction v generalizing w with
  | nil => cases w <;> simp_all
  | cons a v ih =>
    cases w with
    | nil => simp at h1
    | cons b w =>
      simp only [List.map_cons, List.cons.injEq] at h1 h2
      rw [ih w h1.2 h2.2, Prod.ext h1.1 h2.1]

end PTV
