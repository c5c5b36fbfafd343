/-
What the postconditions of vc/contracts.py mean: the values in the contracts (quadratic forms of correlations, clamped
decibels) are the projections, and they have the invariances of the properties.
The contracts state what the code computes; these lemmas turn the contracts into the properties.
-/
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.DotProduct
import Mathlib.Analysis.SpecialFunctions.Log.Base
import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Tactic.Linarith
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.NoncommRing

open Matrix

namespace Metrics

variable {T L J : Type*} [Fintype T] [Fintype L] [Fintype J] [DecidableEq L] [DecidableEq J]

/-- filter that solves the normal equations (columns of A: the shifts of the references) -/
noncomputable def filt (A : Matrix T L ℝ) (y : T → ℝ) : L → ℝ := (Aᵀ * A)⁻¹ *ᵥ (Aᵀ *ᵥ y)

/-- the coherence of the contracts: b' G⁻¹ b -/
noncomputable def coh (A : Matrix T L ℝ) (y : T → ℝ) : ℝ := (Aᵀ *ᵥ y) ⬝ᵥ filt A y

/-- the target: A x -/
noncomputable def proj (A : Matrix T L ℝ) (y : T → ℝ) : T → ℝ := A *ᵥ filt A y

theorem normal_eq (A : Matrix T L ℝ) (y : T → ℝ) (h : IsUnit (Aᵀ * A).det) :
    Aᵀ *ᵥ proj A y = Aᵀ *ᵥ y := by
  unfold proj filt
  rw [mulVec_mulVec, mulVec_mulVec, mul_nonsing_inv _ h, one_mulVec]

/-- (C01) A x is the orthogonal projection: the error is orthogonal to the span of the shifts -/
theorem proj_orthogonal (A : Matrix T L ℝ) (y : T → ℝ) (h : IsUnit (Aᵀ * A).det) (z : L → ℝ) :
    (A *ᵥ z) ⬝ᵥ (y - proj A y) = 0 := by
  rw [dotProduct_sub, dotProduct_comm, dotProduct_comm (A *ᵥ z), dotProduct_mulVec, dotProduct_mulVec,
    ← mulVec_transpose, ← mulVec_transpose, normal_eq A y h, sub_self]

/-- (C01) the coherence is the energy of the projection -/
theorem coh_eq (A : Matrix T L ℝ) (y : T → ℝ) (h : IsUnit (Aᵀ * A).det) :
    coh A y = proj A y ⬝ᵥ proj A y := by
  have h1 : proj A y ⬝ᵥ proj A y = (Aᵀ *ᵥ proj A y) ⬝ᵥ filt A y := by
    conv_lhs => rhs; unfold proj
    rw [dotProduct_mulVec, ← mulVec_transpose]
  rw [h1, normal_eq A y h, coh]

/-- Pythagoras -/
theorem error_energy (A : Matrix T L ℝ) (y : T → ℝ) (h : IsUnit (Aᵀ * A).det) :
    (y - proj A y) ⬝ᵥ (y - proj A y) = y ⬝ᵥ y - coh A y := by
  have h1 : proj A y ⬝ᵥ (y - proj A y) = 0 := proj_orthogonal A y h (filt A y)
  have h2 : (y - proj A y) ⬝ᵥ (y - proj A y) = y ⬝ᵥ (y - proj A y) - proj A y ⬝ᵥ (y - proj A y) := by
    rw [sub_dotProduct]
  have h3 : y ⬝ᵥ (y - proj A y) = (y - proj A y) ⬝ᵥ y := dotProduct_comm _ _
  have h4 : (y - proj A y) ⬝ᵥ y = y ⬝ᵥ y - proj A y ⬝ᵥ y := sub_dotProduct _ _ _
  have h5 : proj A y ⬝ᵥ y = proj A y ⬝ᵥ proj A y := by
    have := h1; rw [dotProduct_sub] at this; linarith
  rw [h2, h1, h3, h4, h5, coh_eq A y h]; ring

/-- (C01) for a unit-norm estimate |s|²/|e|² = c / (1 - c) -/
theorem sdr_ratio (A : Matrix T L ℝ) (y : T → ℝ) (h : IsUnit (Aᵀ * A).det) (hy : y ⬝ᵥ y = 1) :
    (proj A y ⬝ᵥ proj A y) / ((y - proj A y) ⬝ᵥ (y - proj A y)) = coh A y / (1 - coh A y) := by
  rw [error_energy A y h, ← coh_eq A y h, hy]

/-- (C02) s: projection on some of the columns of B, p: on all of them; |p - s|² = |p|² - |s|², so that |s|²/|p - s|² = c_s / (c_p - c_s) -/
theorem interference_energy (B : Matrix T J ℝ) (E : Matrix J L ℝ) (y : T → ℝ)
    (hA : IsUnit ((B * E)ᵀ * (B * E)).det) (hB : IsUnit (Bᵀ * B).det) :
    (proj B y - proj (B * E) y) ⬝ᵥ (proj B y - proj (B * E) y) = coh B y - coh (B * E) y := by
  have ho : ∀ z, ((B * E) *ᵥ z) ⬝ᵥ (y - proj B y) = 0 := by
    intro z; rw [← mulVec_mulVec]; exact proj_orthogonal B y hB _
  have h1 : proj (B * E) y ⬝ᵥ (y - proj B y) = 0 := ho _
  have h2 : proj (B * E) y ⬝ᵥ (y - proj (B * E) y) = 0 := proj_orthogonal (B * E) y hA _
  rw [coh_eq _ _ hA, coh_eq _ _ hB]
  rw [dotProduct_sub] at h1 h2
  have hc : proj B y ⬝ᵥ proj (B * E) y = proj (B * E) y ⬝ᵥ proj B y := dotProduct_comm _ _
  simp only [sub_dotProduct, dotProduct_sub]
  linarith

/-- (C09) the sign of a reference and of an estimate does not matter, with diagonal loading too; S: diagonal matrix of signs, s: sign of the estimate -/
theorem coh_sign (G S : Matrix L L ℝ) (b : L → ℝ) (d s : ℝ) (hS : S * S = 1) (hSt : Sᵀ = S) (hs : s * s = 1) :
    (s • (S *ᵥ b)) ⬝ᵥ ((S * G * S + d • 1)⁻¹ *ᵥ (s • (S *ᵥ b))) = b ⬝ᵥ ((G + d • 1)⁻¹ *ᵥ b) := by
  have hG : S * G * S + d • (1 : Matrix L L ℝ) = S * (G + d • 1) * S := by
    rw [Matrix.mul_add, Matrix.add_mul, Matrix.mul_smul, Matrix.mul_one, Matrix.smul_mul, hS]
  have hSi : S⁻¹ = S := inv_eq_right_inv hS
  rw [hG, Matrix.mul_inv_rev, Matrix.mul_inv_rev, hSi]
  have h1 : (S * ((G + d • 1)⁻¹ * S)) *ᵥ (s • (S *ᵥ b)) = s • (S *ᵥ ((G + d • 1)⁻¹ *ᵥ b)) := by
    rw [mulVec_smul, mulVec_mulVec, mulVec_mulVec, Matrix.mul_assoc, Matrix.mul_assoc, hS, Matrix.mul_one]
  rw [h1, smul_dotProduct, dotProduct_smul, smul_smul, hs, one_smul, dotProduct_mulVec, ← mulVec_transpose, hSt,
    mulVec_mulVec, hS, one_mulVec]

/-- (C09) normalization by max(‖x‖, ε) removes a factor, up to its sign -/
theorem normalize_scale (x n a ε : ℝ) (ha : a ≠ 0) (h0 : 0 < ε) (h1 : ε ≤ n) (h2 : ε ≤ |a| * n) :
    a * x / max (|a| * n) ε = (a / |a|) * (x / max n ε) := by
  have hp : 0 < |a| := abs_pos.mpr ha
  have hn : 0 < n := lt_of_lt_of_le h0 h1
  rw [max_eq_left h1, max_eq_left h2]
  field_simp

/-- (C16) reordering the references (a permutation of the blocks of shifts) does not change the quadratic form -/
theorem coh_reorder {I : Type*} [Fintype I] [DecidableEq I] (G : Matrix L L ℝ) (b : L → ℝ) (σ : I ≃ L) :
    (fun i => b (σ i)) ⬝ᵥ ((G.submatrix σ σ)⁻¹ *ᵥ (fun i => b (σ i))) = b ⬝ᵥ (G⁻¹ *ᵥ b) := by
  rw [inv_submatrix_equiv]
  unfold dotProduct mulVec dotProduct
  simp only [submatrix_apply]
  rw [← Equiv.sum_comp σ]
  refine Finset.sum_congr rfl fun i _ => ?_
  congr 1
  rw [← Equiv.sum_comp σ]

/-- (C11) loading a Gram matrix: the system of the contract is the one of Tikhonov regularization -/
theorem tikhonov (A : Matrix T L ℝ) (y : T → ℝ) (d : ℝ) (x : L → ℝ) (h : IsUnit (Aᵀ * A + d • 1).det) :
    (Aᵀ * A + d • 1) *ᵥ x = Aᵀ *ᵥ y ↔ x = (Aᵀ * A + d • 1)⁻¹ *ᵥ (Aᵀ *ᵥ y) := by
  constructor
  · intro e; rw [← e, mulVec_mulVec, nonsing_inv_mul _ h, one_mulVec]
  · intro e; rw [e, mulVec_mulVec, mul_nonsing_inv _ h, one_mulVec]

/-- clamped ratio of the contract -/
noncomputable def eps (d : ℝ) : ℝ := (10 : ℝ) ^ (-d / 10) / (1 + (10 : ℝ) ^ (-d / 10))
noncomputable def ratio (c d : ℝ) : ℝ :=
  let e := eps d
  let q := min (max c e) (1 - e)
  min (max ((1 - q) / q) (e / (1 - e))) (1 / (e / (1 - e)))
noncomputable def negdb (c d : ℝ) : ℝ := 10 * Real.logb 10 (ratio c d)

theorem eps_odds (d : ℝ) : eps d / (1 - eps d) = (10 : ℝ) ^ (-d / 10) := by
  have h : (0 : ℝ) < (10 : ℝ) ^ (-d / 10) := Real.rpow_pos_of_pos (by norm_num) _
  unfold eps
  field_simp
  ring_nf

/-- (C08) what is reported lies within [-d, d], for every coherence, NaN-free -/
theorem clamp_range (c d : ℝ) (hd : 0 ≤ d) : -d ≤ negdb c d ∧ negdb c d ≤ d := by
  have h : (0 : ℝ) < (10 : ℝ) ^ (-d / 10) := Real.rpow_pos_of_pos (by norm_num) _
  have hle : (10 : ℝ) ^ (-d / 10) ≤ 1 / (10 : ℝ) ^ (-d / 10) := by
    have h1 : (10 : ℝ) ^ (-d / 10) ≤ 1 := Real.rpow_le_one_of_one_le_of_nonpos (by norm_num) (by linarith)
    rw [le_div_iff₀ h]; nlinarith
  have hlo : (10 : ℝ) ^ (-d / 10) ≤ ratio c d := by
    unfold ratio; simp only [eps_odds]; exact le_min (le_max_right _ _) hle
  have hhi : ratio c d ≤ 1 / (10 : ℝ) ^ (-d / 10) := by
    unfold ratio; simp only [eps_odds]; exact min_le_right _ _
  have hr : 0 < ratio c d := lt_of_lt_of_le h hlo
  have e1 : Real.logb 10 ((10 : ℝ) ^ (-d / 10)) = -d / 10 := Real.logb_rpow (by norm_num) (by norm_num)
  have e2 : Real.logb 10 (1 / (10 : ℝ) ^ (-d / 10)) = d / 10 := by
    rw [one_div, Real.logb_inv, e1]; ring
  have l1 := Real.logb_le_logb_of_le (b := 10) (by norm_num) h hlo
  have l2 := Real.logb_le_logb_of_le (b := 10) (by norm_num) hr hhi
  rw [e1] at l1; rw [e2] at l2
  unfold negdb; constructor <;> linarith

/-- (C08) a coherence inside of the range keeps its value -/
theorem clamp_inside (c d : ℝ) (h1 : eps d ≤ c) (h2 : c ≤ 1 - eps d) :
    negdb c d = 10 * Real.logb 10 ((1 - c) / c) := by
  have h : (0 : ℝ) < (10 : ℝ) ^ (-d / 10) := Real.rpow_pos_of_pos (by norm_num) _
  have he : 0 < eps d := by unfold eps; positivity
  have hc : 0 < c := lt_of_lt_of_le he h1
  have h1e : 0 < 1 - eps d := lt_of_lt_of_le hc h2
  have hq : min (max c (eps d)) (1 - eps d) = c := by rw [max_eq_left h1, min_eq_left h2]
  have ha : eps d / (1 - eps d) ≤ (1 - c) / c := by
    rw [div_le_div_iff₀ h1e hc]; nlinarith
  have hb : (1 - c) / c ≤ 1 / (eps d / (1 - eps d)) := by
    rw [one_div_div, div_le_div_iff₀ hc he]; nlinarith
  unfold negdb ratio
  simp only [hq]
  rw [max_eq_left ha, min_eq_left hb]

end Metrics
