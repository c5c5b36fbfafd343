/-
Lemmas used by the contracts of fast_bss_eval/torch/hungarian.py (vc/hungspec.py).
The program proof establishes the hypotheses for the arrays of the code; these lemmas turn them into optimality.
-/
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Algebra.Order.BigOperators.Group.Finset
import Mathlib.Data.Fintype.BigOperators
import Mathlib.Data.Real.Basic
import Mathlib.Data.Fintype.Card
import Mathlib.Data.Finset.Card
import Mathlib.Tactic.Linarith

open Finset

/-- Weak duality: an assignment with complementary potentials is optimal. -/
theorem assignment_optimal {I J : Type*} [Fintype I] [Fintype J] [DecidableEq J]
    (c : I → J → ℝ) (u : I → ℝ) (v : J → ℝ) (s t : I → J)
    (hs : Function.Injective s) (ht : Function.Injective t)
    (hle : ∀ i j, u i + v j ≤ c i j) (heq : ∀ i, u i + v (s i) = c i (s i))
    (hv : ∀ j, v j ≤ 0) (hv0 : ∀ j, (∀ i, s i ≠ j) → v j = 0) :
    ∑ i, c i (s i) ≤ ∑ i, c i (t i) := by
  have h1 : ∑ i, c i (s i) = ∑ i, u i + ∑ i, v (s i) := by
    rw [← sum_add_distrib]; exact sum_congr rfl (fun i _ => (heq i).symm)
  have h2 : ∑ i, u i + ∑ i, v (t i) ≤ ∑ i, c i (t i) := by
    rw [← sum_add_distrib]; exact sum_le_sum (fun i _ => hle i (t i))
  have hS : ∑ i, v (s i) = ∑ j, v j := by
    rw [← sum_image (f := v) (g := s) (s := univ) (fun a _ b _ h => hs h)]
    apply sum_subset (subset_univ _)
    intro j _ hj
    apply hv0
    intro i hi
    exact hj (mem_image.mpr ⟨i, mem_univ _, hi⟩)
  have hT : ∑ j, v j ≤ ∑ i, v (t i) := by
    rw [← sum_image (f := v) (g := t) (s := univ) (fun a _ b _ h => ht h)]
    have := sum_le_sum_of_subset_of_nonneg (f := fun j => - v j) (subset_univ (image t univ))
      (fun j _ _ => by linarith [hv j])
    simp only [sum_neg_distrib] at this
    linarith
  linarith

/-- The number of rows with a star is the number of columns with a star. -/
theorem count_stars {I J : Type*} [Fintype I] [Fintype J] [DecidableEq I] [DecidableEq J]
    (mk : I → J → Prop) [∀ i j, Decidable (mk i j)]
    (hr : ∀ i j j', mk i j → mk i j' → j = j') (hc : ∀ i i' j, mk i j → mk i' j → i = i') :
    (univ.filter (fun i => ∃ j, mk i j)).card = (univ.filter (fun j => ∃ i, mk i j)).card := by
  classical
  apply Finset.card_bij (fun i hi => Classical.choose (mem_filter.mp hi).2)
  · intro i hi
    exact mem_filter.mpr ⟨mem_univ _, i, Classical.choose_spec (mem_filter.mp hi).2⟩
  · intro i hi i' hi' h
    have h1 := Classical.choose_spec (mem_filter.mp hi).2
    have h2 := Classical.choose_spec (mem_filter.mp hi').2
    rw [← h] at h2
    exact hc _ _ _ h1 h2
  · intro j hj
    obtain ⟨i, hi⟩ := (mem_filter.mp hj).2
    have hm : i ∈ univ.filter (fun i => ∃ j, mk i j) := mem_filter.mpr ⟨mem_univ _, j, hi⟩
    exact ⟨i, hm, hr i _ _ (Classical.choose_spec (mem_filter.mp hm).2) hi⟩

/-- ... and the number of starred cells. -/
theorem count_cells {I J : Type*} [Fintype I] [Fintype J] [DecidableEq I] [DecidableEq J]
    (mk : I → J → Prop) [∀ i j, Decidable (mk i j)]
    (hr : ∀ i j j', mk i j → mk i j' → j = j') :
    (univ.filter (fun p : I × J => mk p.1 p.2)).card = (univ.filter (fun i => ∃ j, mk i j)).card := by
  classical
  apply Finset.card_bij (fun p _ => p.1)
  · intro p hp
    exact mem_filter.mpr ⟨mem_univ _, p.2, (mem_filter.mp hp).2⟩
  · intro p hp q hq h
    have h1 := (mem_filter.mp hp).2
    have h2 := (mem_filter.mp hq).2
    have h' : p.1 = q.1 := h
    rw [← h'] at h2
    exact Prod.ext h' (hr _ _ _ h1 h2)
  · intro i hi
    obtain ⟨j, hj⟩ := (mem_filter.mp hi).2
    exact ⟨(i, j), mem_filter.mpr ⟨mem_univ _, hj⟩, rfl⟩

/-- Counting: a proper subset leaves an element, a complete one none. -/
theorem count_lt {I : Type*} [Fintype I] (p : I → Prop) [DecidablePred p]
    (h : (univ.filter p).card < Fintype.card I) : ∃ i, ¬ p i := by
  by_contra hn
  push Not at hn
  rw [filter_true_of_mem (fun i _ => hn i)] at h
  exact lt_irrefl _ h

theorem count_full {I : Type*} [Fintype I] (p : I → Prop) [DecidablePred p]
    (h : Fintype.card I ≤ (univ.filter p).card) : ∀ i, p i := by
  intro i
  have := Finset.eq_univ_of_card (univ.filter p) (le_antisymm (card_le_univ _) h)
  have hi : i ∈ univ.filter p := by rw [this]; exact mem_univ i
  exact (mem_filter.mp hi).2

theorem count_pos {I : Type*} [Fintype I] (p : I → Prop) [DecidablePred p] :
    1 ≤ (univ.filter p).card ↔ ∃ i, p i := by
  constructor
  · intro h
    obtain ⟨i, hi⟩ := card_pos.mp h
    exact ⟨i, (mem_filter.mp hi).2⟩
  · rintro ⟨i, hi⟩
    exact card_pos.mpr ⟨i, mem_filter.mpr ⟨mem_univ _, hi⟩⟩

/-- Counting: two predicates that differ at one index only. -/
theorem count_same {I : Type*} [Fintype I] (p q : I → Prop) [DecidablePred p] [DecidablePred q]
    (h : ∀ i, p i ↔ q i) : (univ.filter p).card = (univ.filter q).card := by
  congr 1; ext i; simp [h i]

theorem count_add {I : Type*} [Fintype I] [DecidableEq I] (p q : I → Prop) [DecidablePred p] [DecidablePred q]
    (r : I) (hp : ¬ p r) (hq : q r) (h : ∀ i, i ≠ r → (p i ↔ q i)) :
    (univ.filter q).card = (univ.filter p).card + 1 := by
  have : univ.filter q = insert r (univ.filter p) := by
    ext i
    by_cases hi : i = r
    · subst hi; simp [hq]
    · simp [hi, h i hi]
  rw [this, card_insert_of_notMem]
  simp [hp]

/-- The constant that stands for +inf entries does not change the optimum: an assignment with such an entry costs
more than any assignment without (all the finite entries are in [m, M]). -/
theorem placeholder_pos {I : Type*} [Fintype I] (a b : I → ℝ) (m M ph : ℝ) (inf : I → Prop)
    (ha : ∀ i, a i ≤ M) (hb : ∀ i, ¬ inf i → m ≤ b i) (hi : ∀ i, inf i → b i = ph) (hmM : m ≤ M)
    (k : I) (hk : inf k) (hph : M + (Fintype.card I - 1) * (M - m) < ph) :
    ∑ i, a i < ∑ i, b i := by
  classical
  have hcard : (1 : ℝ) ≤ Fintype.card I := by exact_mod_cast Fintype.card_pos_iff.mpr ⟨k⟩
  have hm : m ≤ ph := by nlinarith [mul_nonneg (sub_nonneg.mpr hcard) (sub_nonneg.mpr hmM)]
  have h1 : ∑ i, a i ≤ Fintype.card I * M := by
    have := sum_le_card_nsmul univ a M (fun i _ => ha i)
    simpa [card_univ, nsmul_eq_mul] using this
  have h2 : (Fintype.card I - 1 : ℝ) * m ≤ ∑ i ∈ univ.erase k, b i := by
    have := card_nsmul_le_sum (univ.erase k) b m (fun i _ => by
      by_cases h : inf i
      · rw [hi i h]; exact hm
      · exact hb i h)
    rw [card_erase_of_mem (mem_univ k), card_univ, nsmul_eq_mul, Nat.cast_sub (Fintype.card_pos_iff.mpr ⟨k⟩)] at this
    simpa using this
  have h3 := add_sum_erase univ b (mem_univ k)
  rw [hi k hk] at h3
  nlinarith

/-- The same for the constant that stands for -inf entries. -/
theorem placeholder_neg {I : Type*} [Fintype I] (a b : I → ℝ) (m M ph : ℝ) (inf : I → Prop)
    (ha : ∀ i, m ≤ a i) (hb : ∀ i, ¬ inf i → b i ≤ M) (hi : ∀ i, inf i → b i = ph) (hmM : m ≤ M)
    (k : I) (hk : inf k) (hph : ph < m + (Fintype.card I - 1) * (m - M)) :
    ∑ i, b i < ∑ i, a i := by
  have := placeholder_pos (fun i => - a i) (fun i => - b i) (-M) (-m) (-ph) inf
    (fun i => neg_le_neg (ha i)) (fun i h => neg_le_neg (hb i h)) (fun i h => by simp [hi i h]) (neg_le_neg hmM) k hk
    (by linarith [hph, mul_comm (Fintype.card I - 1 : ℝ) (m - M)])
  simp only [sum_neg_distrib] at this
  linarith
