import Mathlib

/-! What the recurrence proved of names.damlev means: D i j is the least cost of an alignment of the
first i characters of s with the first j of t (each character deleted, inserted, matched or substituted, or an
adjacent pair swapped, no substring edited twice).  From that the metric properties of C31 follow. -/

namespace Osa

/-- `Al s t i j n`: the first i characters of s are turned into the first j of t by edits of total cost n. -/
inductive Al (s t : ℕ → ℤ) : ℕ → ℕ → ℕ → Prop
  | nil : Al s t 0 0 0
  | del {i j n} : Al s t i j n → Al s t (i + 1) j (n + 1)
  | ins {i j n} : Al s t i j n → Al s t i (j + 1) (n + 1)
  | sub {i j n} : Al s t i j n → Al s t (i + 1) (j + 1) (n + if s i = t j then 0 else 1)
  | swap {i j n} : s i = t (j + 1) → s (i + 1) = t j → Al s t i j n → Al s t (i + 2) (j + 2) (n + 1)

/-- the recurrence, as the contract of damlev states it (with D i j = osa (i-1) (j-1)) -/
structure Rec (s t : ℕ → ℤ) (D : ℕ → ℕ → ℕ) : Prop where
  left : ∀ i, D i 0 = i
  top : ∀ j, D 0 j = j
  step : ∀ i j, D (i + 1) (j + 1) =
    let best := min (min (D i (j + 1) + 1) (D (i + 1) j + 1)) (D i j + if s i = t j then 0 else 1)
    if 1 ≤ i ∧ 1 ≤ j ∧ s i = t (j - 1) ∧ s (i - 1) = t j then min best (D (i - 1) (j - 1) + 1) else best

variable {s t : ℕ → ℤ} {D : ℕ → ℕ → ℕ}

theorem del_le (h : Rec s t D) (i j : ℕ) : D (i + 1) j ≤ D i j + 1 := by
  cases j with
  | zero => rw [h.left, h.left]
  | succ j => rw [h.step]; dsimp only; split_ifs <;> simp

theorem ins_le (h : Rec s t D) (i j : ℕ) : D i (j + 1) ≤ D i j + 1 := by
  cases i with
  | zero => rw [h.top, h.top]
  | succ i => rw [h.step]; dsimp only; split_ifs <;> simp

theorem sub_le (h : Rec s t D) (i j : ℕ) : D (i + 1) (j + 1) ≤ D i j + if s i = t j then 0 else 1 := by
  rw [h.step]; dsimp only; split_ifs <;> simp

theorem swap_le (h : Rec s t D) (i j : ℕ) (h1 : s i = t (j + 1)) (h2 : s (i + 1) = t j) :
    D (i + 2) (j + 2) ≤ D i j + 1 := by
  rw [h.step (i + 1) (j + 1)]; dsimp only
  rw [if_pos ⟨by omega, by omega, by simpa using h2, by simpa using h1⟩]
  exact min_le_right _ _

/-- no alignment is cheaper -/
theorem least (h : Rec s t D) {i j n : ℕ} (a : Al s t i j n) : D i j ≤ n := by
  induction a with
  | nil => rw [h.left]
  | del _ ih => exact (del_le h _ _).trans (by omega)
  | ins _ ih => exact (ins_le h _ _).trans (by omega)
  | sub _ ih => exact (sub_le h _ _).trans (by omega)
  | swap h1 h2 _ ih => exact (swap_le h _ _ h1 h2).trans (by omega)

theorem al_left (s t : ℕ → ℤ) (i : ℕ) : Al s t i 0 i := by
  induction i with
  | zero => exact .nil
  | succ i ih => exact .del ih

theorem al_top (s t : ℕ → ℤ) (j : ℕ) : Al s t 0 j j := by
  induction j with
  | zero => exact .nil
  | succ j ih => exact .ins ih

/-- and one costs exactly that -/
theorem attained (h : Rec s t D) : ∀ N i j : ℕ, i + j ≤ N → Al s t i j (D i j) := by
  intro N
  induction N with
  | zero =>
    intro i j hij
    obtain ⟨rfl, rfl⟩ : i = 0 ∧ j = 0 := by omega
    rw [h.left]; exact .nil
  | succ N ih =>
    intro i j hij
    rcases i with _ | i
    · rw [h.top]; exact al_top s t j
    rcases j with _ | j
    · rw [h.left]; exact al_left s t _
    have a1 := Al.del (ih i (j + 1) (by omega))
    have a2 := Al.ins (ih (i + 1) j (by omega))
    have a3 := Al.sub (ih i j (by omega))
    have key : Al s t (i + 1) (j + 1)
        (min (min (D i (j + 1) + 1) (D (i + 1) j + 1)) (D i j + if s i = t j then 0 else 1)) := by
      rcases min_choice (min (D i (j + 1) + 1) (D (i + 1) j + 1)) (D i j + if s i = t j then 0 else 1) with e | e
      · rw [e]
        rcases min_choice (D i (j + 1) + 1) (D (i + 1) j + 1) with e' | e' <;> rw [e'] <;> assumption
      · rw [e]; exact a3
    rw [h.step]; dsimp only
    by_cases c : 1 ≤ i ∧ 1 ≤ j ∧ s i = t (j - 1) ∧ s (i - 1) = t j
    · rw [if_pos c]
      obtain ⟨hi, hj, c1, c2⟩ := c
      have a4 : Al s t (i + 1) (j + 1) (D (i - 1) (j - 1) + 1) := by
        obtain ⟨i, rfl⟩ : ∃ m, i = m + 1 := ⟨i - 1, by omega⟩
        obtain ⟨j, rfl⟩ : ∃ m, j = m + 1 := ⟨j - 1, by omega⟩
        exact Al.swap c2 c1 (ih i j (by omega))
      rcases min_choice (min (min (D i (j + 1) + 1) (D (i + 1) j + 1)) (D i j + if s i = t j then 0 else 1))
        (D (i - 1) (j - 1) + 1) with e | e
      · rw [e]; exact key
      · rw [e]; exact a4
    · rw [if_neg c]; exact key

theorem exact_cost (h : Rec s t D) (i j : ℕ) : IsLeast {n | Al s t i j n} (D i j) :=
  ⟨attained h (i + j) i j le_rfl, fun _ a => least h a⟩

theorem Al.symm {i j n : ℕ} (a : Al s t i j n) : Al t s j i n := by
  induction a with
  | nil => exact .nil
  | del _ ih => exact .ins ih
  | ins _ ih => exact .del ih
  | sub _ ih => simpa only [eq_comm] using Al.sub ih
  | swap h1 h2 _ ih => exact .swap h2.symm h1.symm ih

theorem symmetric {D' : ℕ → ℕ → ℕ} (h : Rec s t D) (h' : Rec t s D') (i j : ℕ) : D i j = D' j i :=
  le_antisymm (least h (attained h' (j + i) j i le_rfl).symm) (least h' (attained h (i + j) i j le_rfl).symm)

theorem Al.len {i j n : ℕ} (a : Al s t i j n) : i ≤ j + n ∧ j ≤ i + n := by
  induction a with
  | nil => simp
  | del _ ih => omega
  | ins _ ih => omega
  | sub _ ih => split_ifs <;> omega
  | swap _ _ _ ih => omega

theorem at_least (h : Rec s t D) (i j : ℕ) : i - j ≤ D i j ∧ j - i ≤ D i j := by
  have := (attained h (i + j) i j le_rfl).len
  omega

theorem at_most (h : Rec s t D) : ∀ i j : ℕ, D i j ≤ max i j
  | 0, j => by rw [h.top]; omega
  | i + 1, 0 => by rw [h.left]; omega
  | i + 1, j + 1 => by
    have := sub_le h i j
    have := at_most h i j
    split_ifs at * <;> omega

theorem Al.zero {i j n : ℕ} (a : Al s t i j n) : n = 0 → i = j ∧ ∀ k < i, s k = t k := by
  induction a with
  | nil => simp
  | del _ ih => omega
  | ins _ ih => omega
  | @sub i j n _ ih =>
    split_ifs with e
    · intro hn
      obtain ⟨rfl, f⟩ := ih (by omega)
      refine ⟨rfl, fun k hk => ?_⟩
      rcases Nat.lt_succ_iff_lt_or_eq.mp hk with hk | rfl
      · exact f k hk
      · exact e
    · intro hn; exact absurd hn (by simp)
  | swap _ _ _ ih => omega

theorem al_equal (n : ℕ) (e : ∀ k < n, s k = t k) : Al s t n n 0 := by
  induction n with
  | zero => exact .nil
  | succ n ih =>
    have := Al.sub (ih fun k hk => e k (by omega))
    rwa [if_pos (e n (by omega))] at this

theorem zero_iff (h : Rec s t D) (i j : ℕ) : D i j = 0 ↔ i = j ∧ ∀ k < i, s k = t k := by
  constructor
  · exact (attained h (i + j) i j le_rfl).zero
  · rintro ⟨rfl, e⟩
    exact Nat.le_zero.mp (least h (al_equal i e))

end Osa
