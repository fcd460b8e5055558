/-
Lemmas about finite sums and counts that the contracts use (contracts/lemmas.py,
contracts/C20.py, engine/lib.py, engine/interp.py) and that the SMT solvers
cannot prove because they need induction.
-/
import Mathlib

open Finset

namespace Sums

/-- the sum of a rectangle of `m` rows and `n` columns -/
noncomputable def total (m n : ℕ) (f : ℕ → ℕ → ℝ) : ℝ :=
  ∑ i ∈ range m, ∑ j ∈ range n, f i j

/-- `scale`: SUM(c * f) = c * SUM(f) -/
theorem scale (m n : ℕ) (f : ℕ → ℕ → ℝ) (c : ℝ) :
    total m n (fun i j => c * f i j) = c * total m n f := by
  simp [total, Finset.mul_sum]

/-- `mono`: f ≤ g on the rectangle implies SUM(f) ≤ SUM(g) -/
theorem mono (m n : ℕ) (f g : ℕ → ℕ → ℝ)
    (h : ∀ i < m, ∀ j < n, f i j ≤ g i j) : total m n f ≤ total m n g := by
  unfold total
  refine Finset.sum_le_sum fun i hi => Finset.sum_le_sum fun j hj => ?_
  exact h i (Finset.mem_range.mp hi) j (Finset.mem_range.mp hj)

/-- `ext`: equal summands on the rectangle, equal sums -/
theorem ext (m n : ℕ) (f g : ℕ → ℕ → ℝ)
    (h : ∀ i < m, ∀ j < n, f i j = g i j) : total m n f = total m n g :=
  le_antisymm (mono m n f g fun i hi j hj => (h i hi j hj).le)
    (mono m n g f fun i hi j hj => (h i hi j hj).ge)

/-- `zero`: the sum of zeros -/
theorem zero (m n : ℕ) : total m n (fun _ _ => 0) = 0 := by
  simp [total]

/-- `member`: a sum of summands that are not negative is at least each one -/
theorem member (m n : ℕ) (f : ℕ → ℕ → ℝ)
    (h : ∀ i < m, ∀ j < n, 0 ≤ f i j) (a b : ℕ) (ha : a < m) (hb : b < n) :
    f a b ≤ total m n f := by
  have h1 : f a b ≤ ∑ j ∈ range n, f a j :=
    Finset.single_le_sum (f := fun j => f a j)
      (fun j hj => h a ha j (Finset.mem_range.mp hj)) (Finset.mem_range.mpr hb)
  have h2 : (∑ j ∈ range n, f a j) ≤ total m n f := by
    unfold total
    exact Finset.single_le_sum (f := fun i => ∑ j ∈ range n, f i j)
      (fun i hi => Finset.sum_nonneg fun j hj =>
        h i (Finset.mem_range.mp hi) j (Finset.mem_range.mp hj))
      (Finset.mem_range.mpr ha)
  exact h1.trans h2

/-- `flip`, rows: the sum of a rectangle upside down -/
theorem flip_rows (m n : ℕ) (f : ℕ → ℕ → ℝ) :
    total m n (fun i j => f (m - 1 - i) j) = total m n f := by
  unfold total
  exact Finset.sum_range_reflect (fun i => ∑ j ∈ range n, f i j) m

/-- `flip`, columns -/
theorem flip_cols (m n : ℕ) (f : ℕ → ℕ → ℝ) :
    total m n (fun i j => f i (n - 1 - j)) = total m n f := by
  unfold total
  exact Finset.sum_congr rfl fun i _ =>
    Finset.sum_range_reflect (fun j => f i j) n

/-- `flip`, transposed: the sum of a square with rows and columns exchanged -/
theorem transpose (m : ℕ) (f : ℕ → ℕ → ℝ) :
    total m m (fun i j => f j i) = total m m f := by
  unfold total
  exact Finset.sum_comm

/-- the mean of a matrix that is not empty: between its extremes, so positive
for positive cells -/
theorem mean_pos (m n : ℕ) (f : ℕ → ℕ → ℝ) (hm : 0 < m) (hn : 0 < n)
    (h : ∀ i < m, ∀ j < n, 0 < f i j) : 0 < total m n f / (m * n) := by
  have h1 := member m n f (fun i hi j hj => (h i hi j hj).le) 0 0 hm hn
  have h2 := h 0 hm 0 hn
  have h3 : (0 : ℝ) < m * n := by positivity
  exact div_pos (lt_of_lt_of_le h2 h1) h3

/-- the length of concatenated lists: at least that of every part, and zero
exactly if all parts are empty -/
theorem part_le (n : ℕ) (len : ℕ → ℕ) (k : ℕ) (h : k < n) :
    len k ≤ ∑ i ∈ range n, len i :=
  Finset.single_le_sum (f := len) (fun _ _ => Nat.zero_le _)
    (Finset.mem_range.mpr h)

theorem some_part (n : ℕ) (len : ℕ → ℕ) (h : 0 < ∑ i ∈ range n, len i) :
    ∃ k < n, 0 < len k := by
  by_contra hc
  push Not at hc
  have : ∑ i ∈ range n, len i = 0 :=
    Finset.sum_eq_zero fun i hi => Nat.le_zero.mp (hc i (Finset.mem_range.mp hi))
  omega

/-- counting (C20): workers by state -/
def count {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S) (s : S) : ℕ :=
  ((range n).filter fun w => state w = s).card

/-- when as many workers are in a state as there are, all are -/
theorem all_of_count {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S) (s : S)
    (h : count n state s = n) : ∀ w < n, state w = s := by
  intro w hw
  have h1 : ((range n).filter fun w => state w = s) = range n :=
    Finset.eq_of_subset_of_card_le (Finset.filter_subset _ _) (by
      simpa [count] using h.ge)
  have h2 : w ∈ (range n).filter fun w => state w = s := by
    rw [h1]; exact Finset.mem_range.mpr hw
  exact (Finset.mem_filter.mp h2).2

/-- none in a state, none counted -/
theorem count_zero {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S) (s : S)
    (h : ∀ w < n, state w ≠ s) : count n state s = 0 := by
  unfold count
  rw [Finset.card_eq_zero, Finset.filter_eq_empty_iff]
  intro w hw
  exact h w (Finset.mem_range.mp hw)

/-- a worker that enters a state raises its count by one -/
theorem count_enter {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S) (s : S)
    (v : ℕ) (hv : v < n) (h : state v ≠ s) :
    count n (Function.update state v s) s = count n state s + 1 := by
  unfold count
  have h1 : ((range n).filter fun w => Function.update state v s w = s) =
      insert v ((range n).filter fun w => state w = s) := by
    ext w
    by_cases hw : w = v
    · subst hw
      simp [hv]
    · simp [hw]
  rw [h1, Finset.card_insert_of_notMem]
  simp [h]

/-- a worker that leaves a state lowers its count by one -/
theorem count_leave {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S) (s t : S)
    (v : ℕ) (hv : v < n) (h : state v = s) (ht : t ≠ s) :
    count n (Function.update state v t) s + 1 = count n state s := by
  have h1 : Function.update (Function.update state v t) v s = state := by
    funext w
    by_cases hw : w = v
    · subst hw; simp [h]
    · simp [Function.update_of_ne hw]
  have h2 := count_enter n (Function.update state v t) s v hv (by simp [ht])
  rw [h1] at h2
  exact h2.symm

/-- another state is not affected -/
theorem count_other {S : Type} [DecidableEq S] (n : ℕ) (state : ℕ → S)
    (s t : S) (v : ℕ) (h : state v ≠ s) (ht : t ≠ s) :
    count n (Function.update state v t) s = count n state s := by
  unfold count
  congr 1
  apply Finset.filter_congr
  intro w _
  by_cases hw : w = v
  · subst hw; simp [h, ht]
  · simp [Function.update_of_ne hw]

end Sums
