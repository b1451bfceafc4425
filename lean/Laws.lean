/-
C22: the laws of matrix algebra, derived from the contracts alone.
Contracts.lean is generated from mlv/specs.py: `Contract.mult n m p A B R` says that R is a matrix the contract of
operator* allows as the result of A*B, and so on.  A law holds for whatever results the contracts allow.
-/
import Contracts
import Proofs

set_option autoImplicit false
open Classical MLV

namespace Law

/-- equal as i x j matrices -/
def Eq (i j : ℤ) (A B : Mat) : Prop := ∀ x y : ℤ, x ≥ 0 → x < i → y ≥ 0 → y < j → A x y = B x y

theorem dot_congr' (A B C D : Mat) (x y k : ℤ) (h : ∀ p : ℤ, 0 ≤ p → p < k → A x p * B p y = C x p * D p y) :
    dot A B x y k = dot C D x y k := by
  apply Finset.sum_congr rfl
  intro p hp
  have := Finset.mem_range.mp hp
  exact h p (by omega) (by omega)

theorem sum_comm (i j : ℤ) (A B R S : Mat) (h1 : Contract.sum i j A B R) (h2 : Contract.sum i j B A S) : Eq i j R S := by
  intro x y a b c d
  rw [h1 x y ⟨a, b, c, d⟩, h2 x y ⟨a, b, c, d⟩]; ring

theorem sum_assoc (i j : ℤ) (A B C P Q R S : Mat) (h1 : Contract.sum i j A B P) (h2 : Contract.sum i j P C R)
    (h3 : Contract.sum i j B C Q) (h4 : Contract.sum i j A Q S) : Eq i j R S := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  rw [h2 x y g, h1 x y g, h4 x y g, h3 x y g]; ring

theorem sum_zeros (i j : ℤ) (A Z R : Mat) (hz : Contract.zeros i j Z) (h : Contract.sum i j A Z R) : Eq i j R A := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  have := hz x y g
  rw [h x y g]; linarith

theorem zeros_sum (i j : ℤ) (A Z R : Mat) (hz : Contract.zeros i j Z) (h : Contract.sum i j Z A R) : Eq i j R A := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  have := hz x y g
  rw [h x y g]; linarith

theorem sum_sub (i j : ℤ) (A B P R : Mat) (h1 : Contract.sum i j A B P) (h2 : Contract.sub i j P B R) : Eq i j R A := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  rw [h2 x y g, h1 x y g]; ring

theorem sub_sum (i j : ℤ) (A B P R : Mat) (h1 : Contract.sub i j A B P) (h2 : Contract.sum i j P B R) : Eq i j R A := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  rw [h2 x y g, h1 x y g]; ring

theorem sub_self (i j : ℤ) (A Z R : Mat) (hz : Contract.zeros i j Z) (h : Contract.sub i j A A R) : Eq i j R Z := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < i ∧ y ≥ 0 ∧ y < j := ⟨a, b, c, d⟩
  rw [h x y g, ← hz x y g]; ring

theorem mult_assoc (n m p q : ℤ) (A B C P Q R S : Mat) (h1 : Contract.mult n m p A B P) (h2 : Contract.mult n p q P C R)
    (h3 : Contract.mult m p q B C Q) (h4 : Contract.mult n m q A Q S) : Eq n q R S := by
  intro x y a b c d
  rw [h2 x y ⟨a, b, c, d⟩, h4 x y ⟨a, b, c, d⟩]
  have e1 : dot P C x y p = ∑ k ∈ Finset.range p.toNat, ∑ l ∈ Finset.range m.toNat, A x l * B l k * C k y := by
    apply Finset.sum_congr rfl
    intro k hk
    have := Finset.mem_range.mp hk
    rw [h1 x k ⟨a, b, by omega, by omega⟩, dot, Finset.sum_mul]
  have e2 : dot A Q x y m = ∑ l ∈ Finset.range m.toNat, ∑ k ∈ Finset.range p.toNat, A x l * B l k * C k y := by
    apply Finset.sum_congr rfl
    intro l hl
    have := Finset.mem_range.mp hl
    rw [h3 l y ⟨by omega, by omega, c, d⟩, dot, Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro k _
    ring
  rw [e1, e2, Finset.sum_comm]

theorem mult_sum (n m p : ℤ) (A B C P Q R S T : Mat) (h1 : Contract.sum m p B C P) (h2 : Contract.mult n m p A P R)
    (h3 : Contract.mult n m p A B Q) (h4 : Contract.mult n m p A C S) (h5 : Contract.sum n p Q S T) : Eq n p R T := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < n ∧ y ≥ 0 ∧ y < p := ⟨a, b, c, d⟩
  rw [h2 x y g, h5 x y g, h3 x y g, h4 x y g, dot, dot, dot, ← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro k hk
  have := Finset.mem_range.mp hk
  rw [h1 k y ⟨by omega, by omega, c, d⟩]; ring

theorem sum_mult (n m p : ℤ) (A B C P Q R S T : Mat) (h1 : Contract.sum n m A B P) (h2 : Contract.mult n m p P C R)
    (h3 : Contract.mult n m p A C Q) (h4 : Contract.mult n m p B C S) (h5 : Contract.sum n p Q S T) : Eq n p R T := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < n ∧ y ≥ 0 ∧ y < p := ⟨a, b, c, d⟩
  rw [h2 x y g, h5 x y g, h3 x y g, h4 x y g, dot, dot, dot, ← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro k hk
  have := Finset.mem_range.mp hk
  rw [h1 x k ⟨a, b, by omega, by omega⟩]; ring

theorem mult_eye (n m : ℤ) (A I R : Mat) (hi : Contract.eye m 1 I) (h : Contract.mult n m m A I R) : Eq n m R A := by
  intro x y a b c d
  rw [h x y ⟨a, b, c, d⟩, dot, Finset.sum_eq_single y.toNat]
  · have e : ((y.toNat : ℕ) : ℤ) = y := by omega
    rw [e, hi y y ⟨c, d, c, d⟩, if_pos rfl, mul_one]
  · intro k hk hne
    have := Finset.mem_range.mp hk
    rw [hi k y ⟨by omega, by omega, c, d⟩, if_neg (by omega), mul_zero]
  · intro hk
    exact absurd (Finset.mem_range.mpr (by omega : y.toNat < m.toNat)) hk

theorem eye_mult (n m : ℤ) (A I R : Mat) (hi : Contract.eye n 1 I) (h : Contract.mult n n m I A R) : Eq n m R A := by
  intro x y a b c d
  rw [h x y ⟨a, b, c, d⟩, dot, Finset.sum_eq_single x.toNat]
  · have e : ((x.toNat : ℕ) : ℤ) = x := by omega
    rw [e, hi x x ⟨a, b, a, b⟩, if_pos rfl, one_mul]
  · intro k hk hne
    have := Finset.mem_range.mp hk
    rw [hi x k ⟨a, b, by omega, by omega⟩, if_neg (by omega), zero_mul]
  · intro hk
    exact absurd (Finset.mem_range.mpr (by omega : x.toNat < n.toNat)) hk

theorem trans_trans (n m : ℤ) (A B R : Mat) (h1 : Contract.trans n m A B) (h2 : Contract.trans m n B R) : Eq n m R A := by
  intro x y a b c d
  rw [h2 x y ⟨a, b, c, d⟩, h1 y x ⟨c, d, a, b⟩]

theorem trans_sum (n m : ℤ) (A B P R At Bt S : Mat) (h1 : Contract.sum n m A B P) (h2 : Contract.trans n m P R)
    (h3 : Contract.trans n m A At) (h4 : Contract.trans n m B Bt) (h5 : Contract.sum m n At Bt S) : Eq m n R S := by
  intro x y a b c d
  have g : x ≥ 0 ∧ x < m ∧ y ≥ 0 ∧ y < n := ⟨a, b, c, d⟩
  rw [h2 x y g, h1 y x ⟨c, d, a, b⟩, h5 x y g, h3 x y g, h4 x y g]

theorem trans_mult (n m p : ℤ) (A B P R At Bt S : Mat) (h1 : Contract.mult n m p A B P) (h2 : Contract.trans n p P R)
    (h3 : Contract.trans n m A At) (h4 : Contract.trans m p B Bt) (h5 : Contract.mult p m n Bt At S) : Eq p n R S := by
  intro x y a b c d
  rw [h2 x y ⟨a, b, c, d⟩, h1 y x ⟨c, d, a, b⟩, h5 x y ⟨a, b, c, d⟩]
  apply Finset.sum_congr rfl
  intro k hk
  have := Finset.mem_range.mp hk
  rw [h3 k y ⟨by omega, by omega, c, d⟩, h4 x k ⟨a, b, by omega, by omega⟩]; ring

theorem det_mult (n : ℤ) (A B P : Mat) (dA dB dP : ℝ) (h1 : Contract.mult n n n A B P) (h2 : Contract.det n A dA)
    (h3 : Contract.det n B dB) (h4 : Contract.det n P dP) : dP = dA * dB := by
  rw [h2, h3, h4, Proofs.Det_nat n _ rfl, Proofs.Det_nat n _ rfl, Proofs.Det_nat n _ rfl, ← Matrix.det_mul]
  congr 1
  ext i j
  have := i.isLt
  have := j.isLt
  show P _ _ = _
  rw [h1 _ _ ⟨by omega, by omega, by omega, by omega⟩, Proofs.dot_mul n A B _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩]
  rfl

theorem det_trans (n : ℤ) (A B : Mat) (dA dB : ℝ) (h1 : Contract.trans n n A B) (h2 : Contract.det n A dA)
    (h3 : Contract.det n B dB) : dB = dA := by
  rw [h2, h3, Proofs.Det_nat n _ rfl, Proofs.Det_nat n _ rfl, ← Matrix.det_transpose]
  congr 1
  ext i j
  have := i.isLt
  have := j.isLt
  show B _ _ = A _ _
  rw [h1 _ _ ⟨by omega, by omega, by omega, by omega⟩]

theorem det_eye (n : ℤ) (I : Mat) (d : ℝ) (h1 : Contract.eye n 1 I) (h2 : Contract.det n I d) : d = 1 := by
  rw [h2, Proofs.Det_nat n _ rfl]
  have : Proofs.tN n.toNat I = 1 := by
    ext i j
    have := i.isLt
    have := j.isLt
    show I _ _ = _
    rw [h1 _ _ ⟨by omega, by omega, by omega, by omega⟩, Matrix.one_apply]
    by_cases e : i = j
    · subst e; simp
    · rw [if_neg e, if_neg]
      intro e2
      exact e (Fin.ext (by omega))
  rw [this, Matrix.det_one]

theorem det_swap_rows (n : ℤ) (A R : Mat) (p q : ℤ) (dA dR : ℝ) (hne : p ≠ q) (h1 : Contract.swap_rows n n A p q R)
    (h2 : Contract.det n A dA) (h3 : Contract.det n R dR) : dR = -dA := by
  obtain ⟨⟨hp, hq⟩, hc⟩ := h1
  rw [h2, h3]
  rcases Proofs.det_swap n A R p q ⟨hp, hq, hne⟩ with h | ⟨x, y, hx, hy, hh⟩
  · exact h
  · exact absurd (hc x y ⟨hx.1, hx.2, hy.1, hy.2⟩) hh

theorem swap_rows_twice (n m : ℤ) (A B R : Mat) (p q : ℤ) (h1 : Contract.swap_rows n m A p q B)
    (h2 : Contract.swap_rows n m B p q R) : Eq n m R A := by
  intro x y a b c d
  obtain ⟨⟨hp, hq⟩, hc⟩ := h1
  rw [h2.2 x y ⟨a, b, c, d⟩]
  by_cases e1 : x = p
  · rw [if_pos e1, hc q y ⟨hq.1, hq.2, c, d⟩]
    by_cases e2 : q = p
    · rw [if_pos e2, e1, e2]
    · rw [if_neg e2, if_pos rfl, e1]
  · rw [if_neg e1]
    by_cases e2 : x = q
    · rw [if_pos e2, hc p y ⟨hp.1, hp.2, c, d⟩, if_pos rfl, e2]
    · rw [if_neg e2, hc x y ⟨a, b, c, d⟩, if_neg e1, if_neg e2]

theorem inv_inv (n : ℤ) (A B R : Mat) (h1 : Contract.inv n A B) (h2 : Contract.inv n B R) : Eq n n R A := by
  intro x y a b c d
  obtain ⟨-, hA1, hA2⟩ := h1
  obtain ⟨-, hB1, hB2⟩ := h2
  have e : toM n R = toM n A := by
    calc toM n R = toM n R * (toM n B * toM n A) := by rw [hA1, mul_one]
      _ = (toM n R * toM n B) * toM n A := by rw [mul_assoc]
      _ = toM n A := by rw [hB1, one_mul]
  have := congrFun (congrFun e ⟨x.toNat, by omega⟩) ⟨y.toNat, by omega⟩
  have ex : ((x.toNat : ℕ) : ℤ) = x := by omega
  have ey : ((y.toNat : ℕ) : ℤ) = y := by omega
  simpa [toM, ex, ey] using this

theorem det_inv (n : ℤ) (A B : Mat) (dA dB : ℝ) (h1 : Contract.inv n A B) (h2 : Contract.det n A dA)
    (h3 : Contract.det n B dB) : dB * dA = 1 := by
  obtain ⟨-, hA1, -⟩ := h1
  rw [h2, h3, Det, Det, ← Matrix.det_mul, hA1, Matrix.det_one]

end Law
