import Mathlib

/-! The formulas of stats.gini_kakwani and stats.gini_deaton (as proved of the code by pyvc) are equal,
and lie between 0 and 1 for non-negative data. -/

open Finset

namespace Gini

noncomputable def mean (n : ℕ) (x : ℕ → ℝ) : ℝ := (∑ i ∈ range n, x i) / n

/-- sum over i < j of |x i - x j|, as the code's loops run -/
noncomputable def pairs (n : ℕ) (x : ℕ → ℝ) : ℝ :=
  ∑ i ∈ range n, ∑ m ∈ range (n - 1 - i), |x i - x (i + 1 + m)|

noncomputable def kakwani (n : ℕ) (x : ℕ → ℝ) : ℝ :=
  (2 * pairs n x / (n * (n - 1))) / (2 * mean n x)

noncomputable def deaton (n : ℕ) (x y : ℕ → ℝ) : ℝ :=
  ((n : ℝ) + 1) / (n - 1) - 2 * ((∑ i ∈ range n, x i) + ∑ i ∈ range n, (i : ℝ) * y i) / (n * (n - 1) * mean n x)

/-- y is x in another order -/
def Rearranged (n : ℕ) (x y : ℕ → ℝ) : Prop :=
  ∃ p q : ℕ → ℕ, (∀ j < n, p j < n ∧ q (p j) = j) ∧ (∀ j < n, q j < n ∧ p (q j) = j) ∧ ∀ j < n, y j = x (p j)

theorem tri (n : ℕ) (f : ℕ → ℕ → ℝ) :
    ∑ i ∈ range n, ∑ m ∈ range (n - 1 - i), f i (i + 1 + m) = ∑ j ∈ range n, ∑ i ∈ range j, f i j := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [sum_range_succ, sum_range_succ, ← ih]
    have h0 : n + 1 - 1 - n = 0 := by omega
    rw [h0, range_zero, sum_empty, add_zero, ← sum_add_distrib]
    apply sum_congr rfl
    intro i hi
    have hi' : i < n := mem_range.mp hi
    have h1 : n + 1 - 1 - i = (n - 1 - i) + 1 := by omega
    rw [h1, sum_range_succ]
    have h2 : i + 1 + (n - 1 - i) = n := by omega
    rw [h2]

theorem square (n : ℕ) (f : ℕ → ℕ → ℝ) (hs : ∀ i j, f i j = f j i) (h0 : ∀ i, f i i = 0) :
    ∑ i ∈ range n, ∑ j ∈ range n, f i j = 2 * ∑ j ∈ range n, ∑ i ∈ range j, f i j := by
  induction n with
  | zero => simp
  | succ n ih =>
    rw [sum_range_succ, sum_range_succ (fun j => ∑ i ∈ range j, f i j)]
    have : ∑ i ∈ range n, ∑ j ∈ range (n + 1), f i j = (∑ i ∈ range n, ∑ j ∈ range n, f i j) + ∑ i ∈ range n, f i n := by
      rw [← sum_add_distrib]
      exact sum_congr rfl fun i _ => sum_range_succ _ _
    rw [this, ih, sum_range_succ, h0]
    have h3 : ∑ j ∈ range n, f n j = ∑ i ∈ range n, f i n := sum_congr rfl fun i _ => hs _ _
    rw [h3]; ring

theorem sum_perm {n : ℕ} {x y : ℕ → ℝ} (g : ℝ → ℝ) (h : Rearranged n x y) :
    ∑ i ∈ range n, g (y i) = ∑ i ∈ range n, g (x i) := by
  obtain ⟨p, q, hp, hq, hy⟩ := h
  refine sum_bij' (fun i _ => p i) (fun i _ => q i) ?_ ?_ ?_ ?_ ?_
  · intro i hi; exact mem_range.mpr (hp i (mem_range.mp hi)).1
  · intro i hi; exact mem_range.mpr (hq i (mem_range.mp hi)).1
  · intro i hi; exact (hp i (mem_range.mp hi)).2
  · intro i hi; exact (hq i (mem_range.mp hi)).2
  · intro i hi; rw [hy i (mem_range.mp hi)]

theorem pairs_perm {n : ℕ} {x y : ℕ → ℝ} (h : Rearranged n x y) : pairs n y = pairs n x := by
  have key : ∀ z : ℕ → ℝ, 2 * pairs n z = ∑ i ∈ range n, ∑ j ∈ range n, |z i - z j| := by
    intro z
    unfold pairs
    rw [tri n (fun i j => |z i - z j|), square n (fun i j => |z i - z j|)]
    · intro i j; exact abs_sub_comm _ _
    · intro i; simp
  have e : ∑ i ∈ range n, ∑ j ∈ range n, |y i - y j| = ∑ i ∈ range n, ∑ j ∈ range n, |x i - x j| := by
    have a1 : ∀ i, ∑ j ∈ range n, |y i - y j| = ∑ j ∈ range n, |y i - x j| := fun i =>
      sum_perm (fun t => |y i - t|) h
    simp_rw [a1]
    exact sum_perm (fun t => ∑ j ∈ range n, |t - x j|) h
  have := key x
  have := key y
  linarith

theorem anti_le {n : ℕ} {y : ℕ → ℝ} (h : ∀ j, j + 1 < n → y (j + 1) ≤ y j) :
    ∀ i j, i ≤ j → j < n → y j ≤ y i := by
  intro i j hij
  induction j, hij using Nat.le_induction with
  | base => intro _; exact le_refl _
  | succ j _ ih => intro hj; exact le_trans (h j hj) (ih (by omega))

theorem pairs_anti {n : ℕ} {y : ℕ → ℝ} (h : ∀ j, j + 1 < n → y (j + 1) ≤ y j) :
    pairs n y = ((n : ℝ) - 1) * (∑ i ∈ range n, y i) - 2 * ∑ i ∈ range n, (i : ℝ) * y i := by
  unfold pairs
  rw [tri n (fun i j => |y i - y j|)]
  have e : ∑ j ∈ range n, ∑ i ∈ range j, |y i - y j| = ∑ j ∈ range n, ∑ i ∈ range j, (y i - y j) := by
    refine sum_congr rfl fun j hj => sum_congr rfl fun i hi => ?_
    have := anti_le h i j (le_of_lt (mem_range.mp hi)) (mem_range.mp hj)
    exact abs_of_nonneg (by linarith)
  rw [e]
  clear e h
  induction n with
  | zero => simp
  | succ n ih =>
    rw [sum_range_succ, ih, sum_range_succ, sum_range_succ (fun i => (i : ℝ) * y i), sum_sub_distrib]
    simp only [sum_const, card_range, nsmul_eq_mul]
    push_cast
    ring

theorem sums_perm {n : ℕ} {x y : ℕ → ℝ} (h : Rearranged n x y) : ∑ i ∈ range n, y i = ∑ i ∈ range n, x i :=
  sum_perm (fun t => t) h

theorem formulas_agree {n : ℕ} (hn : 2 ≤ n) {x y : ℕ → ℝ} (h : Rearranged n x y)
    (ha : ∀ j, j + 1 < n → y (j + 1) ≤ y j) (hu : mean n x ≠ 0) : kakwani n x = deaton n x y := by
  have hp := pairs_anti ha
  rw [pairs_perm h, sums_perm h] at hp
  have hn0 : (n : ℝ) ≠ 0 := by positivity
  have hn1 : (n : ℝ) - 1 ≠ 0 := by
    have : (2 : ℝ) ≤ n := by exact_mod_cast hn
    linarith [this] |> fun (h : (0:ℝ) < (n:ℝ) - 1) => ne_of_gt h
  have hs : (∑ i ∈ range n, x i) = n * mean n x := by unfold mean; field_simp
  unfold kakwani deaton
  rw [hp, hs]
  field_simp
  ring

theorem between {n : ℕ} (hn : 2 ≤ n) {x : ℕ → ℝ} (hx : ∀ i, 0 ≤ x i) (hu : 0 < mean n x) :
    0 ≤ kakwani n x ∧ kakwani n x ≤ 1 := by
  have h2 : (2 : ℝ) ≤ n := by exact_mod_cast hn
  have hs : (∑ i ∈ range n, x i) = n * mean n x := by
    have hn0 : (n : ℝ) ≠ 0 := by positivity
    unfold mean; field_simp
  have lo : 0 ≤ pairs n x := sum_nonneg fun i _ => sum_nonneg fun m _ => abs_nonneg _
  have hi : pairs n x ≤ ((n : ℝ) - 1) * ∑ i ∈ range n, x i := by
    unfold pairs
    rw [tri n (fun i j => |x i - x j|)]
    calc ∑ j ∈ range n, ∑ i ∈ range j, |x i - x j| ≤ ∑ j ∈ range n, ∑ i ∈ range j, (x i + x j) := by
          refine sum_le_sum fun j _ => sum_le_sum fun i _ => ?_
          have := hx i; have := hx j
          rw [abs_le]; constructor <;> linarith
      _ = ((n : ℝ) - 1) * ∑ i ∈ range n, x i := by
          clear hn hu h2 hs lo
          induction n with
          | zero => simp
          | succ n ih =>
            rw [sum_range_succ, ih, sum_range_succ, sum_add_distrib]
            simp only [sum_const, card_range, nsmul_eq_mul]
            push_cast
            ring
  rw [hs] at hi
  have hd : (0:ℝ) < n * (n - 1) := by nlinarith
  have e : kakwani n x = pairs n x / (n * (n - 1) * mean n x) := by
    unfold kakwani; field_simp
  have hd' : (0:ℝ) < n * (n - 1) * mean n x := by positivity
  rw [e]
  constructor
  · positivity
  · rw [div_le_one hd']; nlinarith
end Gini
