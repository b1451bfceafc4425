import Stmts
set_option autoImplicit false
set_option linter.all false
open Classical MLV

namespace Proofs

/-! scalar algebra -/
theorem rmul_comm : Stmt.rmul_comm := fun a b => mul_comm a b
theorem rmul_zero : Stmt.rmul_zero := fun a b h => by rw [h, zero_mul]
theorem rmul_one : Stmt.rmul_one := fun a b => ⟨fun h => by rw [h, one_mul], fun h => by rw [h]; ring⟩
theorem rmul_sq : Stmt.rmul_sq := fun a => mul_self_nonneg a
theorem rdiv_unit : Stmt.rdiv_unit := fun a b =>
  ⟨fun h => by rw [h, div_one], fun h => by rw [h]; ring, fun h => by rw [h, zero_div]⟩
theorem rdiv_cancel : Stmt.rdiv_cancel := fun a b h => div_mul_cancel₀ a h
theorem rmul_div : Stmt.rmul_div := fun a b h => mul_div_cancel_right₀ a h
theorem rdiv_nonneg : Stmt.rdiv_nonneg := fun a b h => div_nonneg h.1 h.2.le
theorem sqrt_nonneg : Stmt.sqrt_nonneg := fun a h => ⟨Real.sqrt_nonneg a, Real.mul_self_sqrt h⟩

/-! folds -/
theorem toNat_nonpos {k : ℤ} (h : k ≤ 0) : k.toNat = 0 := Int.toNat_of_nonpos h
theorem toNat_succ {k : ℤ} (h : k ≥ 0) : (k + 1).toNat = k.toNat + 1 := by omega
theorem cast_toNat {k : ℤ} (h : k ≥ 0) : ((k.toNat : ℕ) : ℤ) = k := Int.toNat_of_nonneg h

theorem foldN_congr {β : Type} (f g : ℕ → β → β) (z : β) (k : ℕ) (h : ∀ p, p < k → f p = g p) :
    foldN f z k = foldN g z k := by
  induction k with
  | zero => rfl
  | succ k ih =>
    simp only [foldN]
    rw [ih (fun p hp => h p (by omega)), h k (by omega)]

theorem foldM_base {β : Type} (f : ℕ → ℕ → β → β) (nl : ℕ → β → β) (z : β) (c : ℕ) : foldM f nl z c 0 0 = z := rfl
theorem foldM_cell {β : Type} (f : ℕ → ℕ → β → β) (nl : ℕ → β → β) (z : β) (c r k : ℕ) :
    foldM f nl z c r (k + 1) = f r k (foldM f nl z c r k) := rfl
theorem foldM_line {β : Type} (f : ℕ → ℕ → β → β) (nl : ℕ → β → β) (z : β) (c r : ℕ) :
    foldM f nl z c (r + 1) 0 = nl r (foldM f nl z c r c) := rfl

theorem dot_base_P : Stmt.dot_base_P := by
  intro α o A B i j k h
  simp [dotG, toNat_nonpos h, foldN]
theorem dot_step_P : Stmt.dot_step_P := by
  intro α o A B i j k h
  simp only [dotG, toNat_succ h, foldN, cast_toNat h]
theorem dot_congr_P : Stmt.dot_congr_P := by
  intro α o A B C D i j k
  by_cases h : ∃ p : ℤ, (p ≥ 0 ∧ p < k) ∧ (¬ A i p = C i p ∨ ¬ B p j = D p j)
  · exact Or.inr h
  · left
    push Not at h
    simp only [dotG]
    apply foldN_congr
    intro p hp
    have := h (p : ℤ) ⟨by omega, by omega⟩
    funext acc
    rw [this.1, this.2]
theorem dotT_base_P : Stmt.dotT_base_P := by
  intro α o A B i j k h
  simp [dotTG, toNat_nonpos h, foldN]
theorem dotT_step_P : Stmt.dotT_step_P := by
  intro α o A B i j k h
  simp only [dotTG, toNat_succ h, foldN, cast_toNat h]
theorem minor_cell_P : Stmt.minor_cell_P := by
  intro α o A i j x y
  rfl
theorem minor_cell : Stmt.minor_cell := by
  intro A i j x y
  rfl

theorem dot_base : Stmt.dot_base := by
  intro A B i j k h
  simp [dot, toNat_nonpos h]
theorem dot_step : Stmt.dot_step := by
  intro A B i j k h
  simp only [dot, toNat_succ h, Finset.sum_range_succ, cast_toNat h]
theorem dot_congr : Stmt.dot_congr := by
  intro A B C D i j k
  by_cases h : ∃ p : ℤ, (p ≥ 0 ∧ p < k) ∧ (¬ A i p = C i p ∨ ¬ B p j = D p j)
  · exact Or.inr h
  · left
    push Not at h
    apply Finset.sum_congr rfl
    intro p hp
    have := h (p : ℤ) ⟨by omega, by have := Finset.mem_range.mp hp; omega⟩
    rw [this.1, this.2]
theorem dotT_base : Stmt.dotT_base := by
  intro A B i j k h
  simp [dotT, toNat_nonpos h]
theorem dotT_step : Stmt.dotT_step := by
  intro A B i j k h
  simp only [dotT, toNat_succ h, Finset.sum_range_succ, cast_toNat h]
theorem dotT_congr : Stmt.dotT_congr := by
  intro A B C D i j k
  by_cases h : ∃ p : ℤ, (p ≥ 0 ∧ p < k) ∧ (¬ A i p = C i p ∨ ¬ B j p = D j p)
  · exact Or.inr h
  · left
    push Not at h
    apply Finset.sum_congr rfl
    intro p hp
    have := h (p : ℤ) ⟨by omega, by have := Finset.mem_range.mp hp; omega⟩
    rw [this.1, this.2]

/-! matrix sums -/
theorem rsum_base_P : Stmt.rsum_base_P := by
  intro α o A c r k h
  simp [rsumG, h.1, h.2, foldM_base]
theorem rsum_cell_P : Stmt.rsum_cell_P := by
  intro α o A c r k h
  simp only [rsumG, toNat_succ h.2, foldM_cell, cast_toNat h.1, cast_toNat h.2]
theorem rsum_line_P : Stmt.rsum_line_P := by
  intro α o A c r h
  have : r.toNat = (r - 1).toNat + 1 := by omega
  simp only [rsumG, this, foldM_line, Int.toNat_zero]
theorem vsum_base_P : Stmt.vsum_base_P := by
  intro α o A m c r k h
  simp [vsumG, h.1, h.2, foldM_base]
theorem vsum_cell_P : Stmt.vsum_cell_P := by
  intro α o A m c r k h
  simp only [vsumG, toNat_succ h.2, foldM_cell, cast_toNat h.1, cast_toNat h.2]
theorem vsum_line_P : Stmt.vsum_line_P := by
  intro α o A m c r h
  have : r.toNat = (r - 1).toNat + 1 := by omega
  simp only [vsumG, this, foldM_line, Int.toNat_zero]
theorem ptr_base_P : Stmt.ptr_base_P := by
  intro α τ ι q t A c r k h
  simp [ptrG, h.1, h.2, foldM_base]
theorem ptr_cell_P : Stmt.ptr_cell_P := by
  intro α τ ι q t A c r k h
  simp only [ptrG, toNat_succ h.2, foldM_cell, cast_toNat h.1, cast_toNat h.2]
theorem ptr_line_P : Stmt.ptr_line_P := by
  intro α τ ι q t A c r h
  have : r.toNat = (r - 1).toNat + 1 := by omega
  simp only [ptrG, this, foldM_line, Int.toNat_zero]
theorem ptr_base : Stmt.ptr_base := fun q => ptr_base_P q
theorem ptr_cell : Stmt.ptr_cell := fun q => ptr_cell_P q
theorem ptr_line : Stmt.ptr_line := fun q => ptr_line_P q

theorem rsum_base : Stmt.rsum_base := by
  intro A c r k h
  simp [rsum, h.1, h.2]
theorem rsum_cell : Stmt.rsum_cell := by
  intro A c r k h
  simp only [rsum, toNat_succ h.2, Finset.sum_range_succ, cast_toNat h.1, cast_toNat h.2, add_assoc]
theorem rsum_line : Stmt.rsum_line := by
  intro A c r h
  have : r.toNat = (r - 1).toNat + 1 := by omega
  simp only [rsum, this, Int.toNat_zero, Finset.sum_range_succ, Finset.range_zero, Finset.sum_empty, add_zero]
theorem csum_base : Stmt.csum_base := fun A => rsum_base (fun x y => A y x)
theorem csum_cell : Stmt.csum_cell := fun A => rsum_cell (fun x y => A y x)
theorem csum_line : Stmt.csum_line := fun A => rsum_line (fun x y => A y x)
theorem vsum_base : Stmt.vsum_base := fun A m => rsum_base (fun x y => (A x y - m) * (A x y - m))
theorem vsum_cell : Stmt.vsum_cell := fun A m => rsum_cell (fun x y => (A x y - m) * (A x y - m))
theorem vsum_line : Stmt.vsum_line := fun A m => rsum_line (fun x y => (A x y - m) * (A x y - m))
theorem cvsum_base : Stmt.cvsum_base := fun A => vsum_base (fun x y => A y x)
theorem cvsum_cell : Stmt.cvsum_cell := fun A => vsum_cell (fun x y => A y x)
theorem cvsum_line : Stmt.cvsum_line := fun A => vsum_line (fun x y => A y x)
theorem csum_rsum : Stmt.csum_rsum := by
  intro A r c h
  simp only [csum, rsum, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  exact Finset.sum_comm
theorem cvsum_vsum : Stmt.cvsum_vsum := by
  intro A m r c h
  simp only [cvsum, vsum, rsum, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  exact Finset.sum_comm
theorem vsum_nonneg : Stmt.vsum_nonneg := by
  intro A m c r k h
  simp only [vsum, rsum]
  apply add_nonneg
  · exact Finset.sum_nonneg fun x _ => Finset.sum_nonneg fun y _ => mul_self_nonneg _
  · exact Finset.sum_nonneg fun y _ => mul_self_nonneg _
theorem rsum_vsum : Stmt.rsum_vsum := by
  intro A M m c r h
  simp only [vsum, rsum, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  apply Finset.sum_congr rfl
  intro x hx
  apply Finset.sum_congr rfl
  intro y hy
  have hx' := Finset.mem_range.mp hx
  have hy' := Finset.mem_range.mp hy
  exact h.2.2 x y ⟨by omega, by omega, by omega, by omega⟩

/-! counts -/
theorem pcnt_base (p : ℝ → Prop) (A : Mat) (c r k : ℤ) (h : r = 0 ∧ k = 0) : pcnt p A c r k = 0 := by
  simp [pcnt, h.1, h.2]
theorem pcnt_cell (p : ℝ → Prop) (A : Mat) (c r k : ℤ) (h : r ≥ 0 ∧ k ≥ 0) :
    pcnt p A c r (k + 1) = pcnt p A c r k + (if p (A r k) then 1 else 0) := by
  simp only [pcnt, toNat_succ h.2, Finset.sum_range_succ, cast_toNat h.1, cast_toNat h.2, add_assoc]
theorem pcnt_line (p : ℝ → Prop) (A : Mat) (c r : ℤ) (h : r ≥ 1) : pcnt p A c r 0 = pcnt p A c (r - 1) c := by
  have : r.toNat = (r - 1).toNat + 1 := by omega
  simp only [pcnt, this, Int.toNat_zero, Finset.sum_range_succ, Finset.range_zero, Finset.sum_empty, add_zero]
theorem pcnt_nonneg (p : ℝ → Prop) (A : Mat) (c r k : ℤ) : 0 ≤ pcnt p A c r k := by
  simp only [pcnt]
  apply add_nonneg
  · exact Finset.sum_nonneg fun x _ => Finset.sum_nonneg fun y _ => by split <;> simp
  · exact Finset.sum_nonneg fun y _ => by split <;> simp
theorem ind_le (p : Prop) : (if p then 1 else 0 : ℤ) ≤ 1 := by split <;> simp
theorem pcnt_le (p : ℝ → Prop) (A : Mat) (c r k : ℤ) : pcnt p A c r k ≤ r.toNat * c.toNat + k.toNat := by
  simp only [pcnt]
  apply add_le_add
  · calc _ ≤ ∑ x ∈ Finset.range r.toNat, ∑ y ∈ Finset.range c.toNat, (1 : ℤ) :=
          Finset.sum_le_sum fun x _ => Finset.sum_le_sum fun y _ => ind_le _
      _ = _ := by simp
  · calc _ ≤ ∑ y ∈ Finset.range k.toNat, (1 : ℤ) := Finset.sum_le_sum fun y _ => ind_le _
      _ = _ := by simp
theorem pcnt_bound (p : ℝ → Prop) (A : Mat) (c r k : ℤ) (hc : c ≤ 1073741824) (hr : r ≤ 1073741824) (hk : k ≤ 1073741824) :
    pcnt p A c r k ≤ 2305843009213693952 := by
  have h := pcnt_le p A c r k
  have h1 : ((r.toNat : ℕ) : ℤ) ≤ 1073741824 := by omega
  have h2 : ((c.toNat : ℕ) : ℤ) ≤ 1073741824 := by omega
  have h3 : ((k.toNat : ℕ) : ℤ) ≤ 1073741824 := by omega
  have h4 : ((r.toNat : ℕ) : ℤ) * ((c.toNat : ℕ) : ℤ) ≤ 1073741824 * 1073741824 :=
    mul_le_mul h1 h2 (by omega) (by omega)
  omega
theorem mcnt_base : Stmt.mcnt_base := fun A c r k z h => pcnt_base _ _ _ _ _ h
theorem mcnt_cell : Stmt.mcnt_cell := fun A c r k z h => pcnt_cell _ _ _ _ _ h
theorem mcnt_line : Stmt.mcnt_line := fun A c r z h => pcnt_line _ _ _ _ h
theorem mcnt_nonneg : Stmt.mcnt_nonneg := fun A c r k z h =>
  ⟨pcnt_nonneg _ _ _ _ _, fun b => pcnt_bound _ _ _ _ _ b.1 b.2.1 b.2.2⟩
theorem ccnt_base : Stmt.ccnt_base := fun A c r k z h => pcnt_base _ _ _ _ _ h
theorem ccnt_cell : Stmt.ccnt_cell := fun A c r k z h => pcnt_cell _ (fun x y => A y x) _ _ _ h
theorem ccnt_line : Stmt.ccnt_line := fun A c r z h => pcnt_line _ _ _ _ h
theorem ccnt_nonneg : Stmt.ccnt_nonneg := fun A c r k z h =>
  ⟨pcnt_nonneg _ _ _ _ _, fun b => pcnt_bound _ _ _ _ _ b.1 b.2.1 b.2.2⟩
theorem ccnt_mcnt : Stmt.ccnt_mcnt := by
  intro A r c z h
  simp only [ccnt, mcnt, pcnt, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  exact Finset.sum_comm
theorem mcnt_cellpos : Stmt.mcnt_cellpos := by
  intro A c r x y h
  obtain ⟨⟨hx0, hx⟩, hy0, hy⟩ := h
  simp only [mcnt, pcnt, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  have nn : ∀ a ∈ Finset.range r.toNat, (0 : ℤ) ≤ ∑ b ∈ Finset.range c.toNat, (if A a b = A x y then 1 else 0 : ℤ) :=
    fun a _ => Finset.sum_nonneg fun b _ => by split <;> simp
  have h1 := Finset.single_le_sum nn (Finset.mem_range.mpr (show x.toNat < r.toNat by omega))
  have nn2 : ∀ b ∈ Finset.range c.toNat, (0 : ℤ) ≤ (if A x.toNat b = A x y then 1 else 0 : ℤ) :=
    fun b _ => by split <;> simp
  have h2 := Finset.single_le_sum nn2 (Finset.mem_range.mpr (show y.toNat < c.toNat by omega))
  rw [cast_toNat hx0, cast_toNat hy0, if_pos rfl] at h2
  rw [cast_toNat hx0] at h1
  exact le_trans h2 h1

theorem rcnt_update (v : ℤ → ℝ) (k : ℤ) (e z : ℝ) (h : k ≥ 0) :
    rcnt (Function.update v k e) (k + 1) z = rcnt v k z + (if e = z then 1 else 0) := by
  simp only [rcnt, toNat_succ h, Finset.sum_range_succ, cast_toNat h, Function.update_self]
  congr 1
  apply Finset.sum_congr rfl
  intro p hp
  have := Finset.mem_range.mp hp
  rw [Function.update_of_ne (by omega)]
theorem peq_base : Stmt.peq_base := by
  intro v k A c r s h z
  rw [mcnt_base A c r s z h.2]
  simp [rcnt, h.1]
theorem peqc_base : Stmt.peqc_base := by
  intro v k A c r s h z
  rw [ccnt_base A c r s z h.2]
  simp [rcnt, h.1]
theorem peq_step : Stmt.peq_step := by
  intro v k e k1 k2 A c r s s2 h z
  obtain ⟨h1, h2, h3, h4, h5, h6, h7, h8⟩ := h
  subst h2 h3 h4 h8
  rw [rcnt_update _ _ _ _ h5, mcnt_cell A c r s z ⟨h6, h7⟩, h1 z]
theorem peqc_step : Stmt.peqc_step := by
  intro v k e k1 k2 A c r s s2 h z
  obtain ⟨h1, h2, h3, h4, h5, h6, h7, h8⟩ := h
  subst h2 h3 h4 h8
  rw [rcnt_update _ _ _ _ h5, ccnt_cell A c r s z ⟨h6, h7⟩, h1 z]
theorem peq_line : Stmt.peq_line := by
  intro v k k1 A c r s r2 s2 h z
  obtain ⟨h1, h2, h3, h4, h5, h6⟩ := h
  subst h2 h3 h4 h5
  rw [mcnt_line A s (r + 1) z (by omega), show r + 1 - 1 = r by ring, h1 z]
theorem peqc_line : Stmt.peqc_line := by
  intro v k k1 A c r s r2 s2 h z
  obtain ⟨h1, h2, h3, h4, h5, h6⟩ := h
  subst h2 h3 h4 h5
  rw [ccnt_line A s (r + 1) z (by omega), show r + 1 - 1 = r by ring, h1 z]
theorem peq_next : Stmt.peq_next := by
  intro v k e k1 k2 A c r s r2 s2 h
  obtain ⟨h1, h2, h3, h4, h5, h6, h7, h8, h9, h10⟩ := h
  have a := peq_step v k e k1 k2 A c r s (s + 1) ⟨h1, h2, h3, rfl, h7, h8, h9, h10⟩
  exact peq_line _ k2 k2 A c r (s + 1) r2 s2 ⟨a, rfl, h4, h5, h6, h8⟩
theorem peqc_next : Stmt.peqc_next := by
  intro v k e k1 k2 A c r s r2 s2 h
  obtain ⟨h1, h2, h3, h4, h5, h6, h7, h8, h9, h10⟩ := h
  have a := peqc_step v k e k1 k2 A c r s (s + 1) ⟨h1, h2, h3, rfl, h7, h8, h9, h10⟩
  exact peqc_line _ k2 k2 A c r (s + 1) r2 s2 ⟨a, rfl, h4, h5, h6, h8⟩
theorem peq_elim : Stmt.peq_elim := by
  intro v k k1 A c r s z h
  rw [← h.2, h.1 z]
theorem peqc_elim : Stmt.peqc_elim := by
  intro v k k1 A c r s z h
  rw [← h.2, h.1 z]
theorem ost_congr : Stmt.ost_congr := by
  intro b d k
  by_cases h : ∃ z, ¬ b z = d z
  · exact Or.inr h
  · push Not at h
    left
    rw [show b = d from funext h]

theorem vcnt_empty : Stmt.vcnt_empty := by
  intro V A r c
  by_cases h : ∃ x y : ℤ, ((x ≥ 0 ∧ x < r) ∧ (y ≥ 0 ∧ y < c) ∧ V (A x y))
  · exact Or.inr h
  · left
    push Not at h
    simp only [vcnt, pcnt, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
    apply Finset.sum_eq_zero
    intro x hx
    apply Finset.sum_eq_zero
    intro y hy
    rw [if_neg (h x y ⟨by omega, by have := Finset.mem_range.mp hx; omega⟩
      ⟨by omega, by have := Finset.mem_range.mp hy; omega⟩)]
theorem vcnt_step : Stmt.vcnt_step := by
  intro V A k r c h
  obtain ⟨hV, -, -⟩ := h
  simp only [vcnt, mcnt, pcnt, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
  rw [← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro x _
  rw [← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro y _
  by_cases e : A x y = k
  · simp [e, hV]
  · simp [Function.update_of_ne e, e]
theorem vcnt_bound : Stmt.vcnt_bound := by
  intro V A r c h
  refine ⟨pcnt_nonneg _ _ _ _ _, ?_⟩
  have h0 := pcnt_le V A c r 0
  have h1 : ((r.toNat : ℕ) : ℤ) ≤ 1073741824 := by omega
  have h2 : ((c.toNat : ℕ) : ℤ) ≤ 1073741824 := by omega
  have h4 : ((r.toNat : ℕ) : ℤ) * ((c.toNat : ℕ) : ℤ) ≤ 1073741824 * 1073741824 :=
    mul_le_mul h1 h2 (by omega) (by omega)
  simp only [vcnt]
  rw [Int.toNat_zero, Nat.cast_zero, add_zero] at h0
  omega
theorem vcnt_le : Stmt.vcnt_le := by
  intro V A k r c
  by_cases h : ∃ x y : ℤ, ((x ≥ 0 ∧ x < r) ∧ (y ≥ 0 ∧ y < c) ∧ ¬ (V (A x y) ↔ A x y ≤ k))
  · exact Or.inr h
  · left
    push Not at h
    simp only [vcnt, mcntle, pcnt, Int.toNat_zero, Finset.range_zero, Finset.sum_empty, add_zero]
    apply Finset.sum_congr rfl
    intro x hx
    apply Finset.sum_congr rfl
    intro y hy
    have := h x y ⟨by omega, by have := Finset.mem_range.mp hx; omega⟩
      ⟨by omega, by have := Finset.mem_range.mp hy; omega⟩
    simp only [this]

/-- the leading n x n block -/
def tN (n : ℕ) (A : Mat) : Matrix (Fin n) (Fin n) ℝ := fun i j => A (i : ℕ) (j : ℕ)

theorem toM_tN (n : ℤ) (A : Mat) : toM n A = tN n.toNat A := rfl

theorem Det_nat (n : ℤ) (m : ℕ) (h : n.toNat = m) (A : Mat) : Det n A = (tN m A).det := by
  subst h; rfl

theorem tN_ext {n : ℤ} {A B : Mat}
    (h : ∀ x y : ℤ, (x ≥ 0 ∧ x < n) → (y ≥ 0 ∧ y < n) → A x y = B x y) : tN n.toNat A = tN n.toNat B := by
  ext i j
  exact h _ _ ⟨by omega, by have := i.isLt; omega⟩ ⟨by omega, by have := j.isLt; omega⟩

theorem det_0 : Stmt.det_0 := by
  intro A
  rw [Det_nat 0 0 rfl]; simp
theorem det_1 : Stmt.det_1 := by
  intro A
  rw [Det_nat 1 1 rfl, Matrix.det_fin_one]; rfl
theorem det_2 : Stmt.det_2 := by
  intro A
  rw [Det_nat 2 2 rfl, Matrix.det_fin_two]; rfl
theorem det_3 : Stmt.det_3 := by
  intro A
  rw [Det_nat 3 3 rfl, Matrix.det_fin_three]
  simp only [tN]
  norm_num
  ring

theorem det_congr : Stmt.det_congr := by
  intro n A B
  by_cases h : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ A x y = B x y
  · exact Or.inr h
  · left
    push Not at h
    rw [Det_nat n _ rfl, Det_nat n _ rfl, tN_ext h]

theorem det_swap : Stmt.det_swap := by
  intro n A B i r h
  obtain ⟨hi, hr, hne⟩ := h
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ B x y = A (if x = i then r else if x = r then i else x) y
  · exact Or.inr hx
  · left
    push Not at hx
    have hi' : i.toNat < n.toNat := by omega
    have hr' : r.toNat < n.toNat := by omega
    let i' : Fin n.toNat := ⟨i.toNat, hi'⟩
    let r' : Fin n.toNat := ⟨r.toNat, hr'⟩
    have hir : i' ≠ r' := by
      intro e
      have : i.toNat = r.toNat := congrArg Fin.val e
      omega
    have e : tN n.toNat B = (tN n.toNat A).submatrix (Equiv.swap i' r') id := by
      ext x y
      have hxl := x.isLt
      have hyl := y.isLt
      rw [Matrix.submatrix_apply]
      show B _ _ = A _ _
      rw [hx x y ⟨by omega, by omega⟩ ⟨by omega, by omega⟩]
      by_cases e1 : x = i'
      · subst e1
        rw [if_pos (by simp [i']; omega), Equiv.swap_apply_left]
        simp [r']
        congr 1; omega
      · have h1 : ¬ ((x : ℕ) : ℤ) = i := by
          intro e; apply e1; apply Fin.ext; simp [i']; omega
        rw [if_neg h1]
        by_cases e2 : x = r'
        · subst e2
          rw [if_pos (by simp [r']; omega), Equiv.swap_apply_right]
          simp [i']
          congr 1; omega
        · have h2 : ¬ ((x : ℕ) : ℤ) = r := by
            intro e; apply e2; apply Fin.ext; simp [r']; omega
          rw [if_neg h2, Equiv.swap_apply_of_ne_of_ne e1 e2]
          rfl
    rw [Det_nat n _ rfl, Det_nat n _ rfl, e, Matrix.det_permute, Equiv.Perm.sign_swap hir]
    simp

theorem rowop_aux (n : ℤ) (A B : Mat) (i r : ℤ) (c : ℝ)
    (hi : i ≥ 0 ∧ i < n) (hr : r ≥ 0 ∧ r < n) (hne : ¬ i = r)
    (hx : ∀ x y : ℤ, (x ≥ 0 ∧ x < n) → (y ≥ 0 ∧ y < n) → B x y = if x = i then A i y - c * A r y else A x y) :
    Det n B = Det n A := by
  have hi' : i.toNat < n.toNat := by omega
  have hr' : r.toNat < n.toNat := by omega
  let i' : Fin n.toNat := ⟨i.toNat, hi'⟩
  let r' : Fin n.toNat := ⟨r.toNat, hr'⟩
  have hir : i' ≠ r' := by
    intro e
    have : i.toNat = r.toNat := congrArg Fin.val e
    omega
  have e : tN n.toNat B = (tN n.toNat A).updateRow i' (tN n.toNat A i' + (-c) • tN n.toNat A r') := by
    ext x y
    have hxl := x.isLt
    have hyl := y.isLt
    show B _ _ = _
    rw [hx x y ⟨by omega, by omega⟩ ⟨by omega, by omega⟩]
    have ti : ((i.toNat : ℕ) : ℤ) = i := by omega
    have tr : ((r.toNat : ℕ) : ℤ) = r := by omega
    by_cases e1 : x = i'
    · subst e1
      rw [if_pos (by simp [i']; omega), Matrix.updateRow_self]
      simp [tN, i', r', ti, tr]
      ring
    · have h1 : ¬ ((x : ℕ) : ℤ) = i := by
        intro e; apply e1; apply Fin.ext; simp [i']; omega
      rw [if_neg h1, Matrix.updateRow_ne e1]
      rfl
  rw [Det_nat n _ rfl, Det_nat n _ rfl, e, Matrix.det_updateRow_add_smul_self _ hir]

theorem det_rowop : Stmt.det_rowop := by
  intro n A B i r a d h
  obtain ⟨hi, hr, hne⟩ := h
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ B x y = if x = i then A i y - (a / d) * A r y else A x y
  · exact Or.inr hx
  · left
    push Not at hx
    exact rowop_aux n A B i r (a / d) hi hr hne hx
theorem det_rowop2 : Stmt.det_rowop2 := by
  intro n A B i r a d h
  obtain ⟨hi, hr, hne⟩ := h
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ B x y = if x = i then A i y - (a * A r y) / d else A x y
  · exact Or.inr hx
  · left
    push Not at hx
    refine rowop_aux n A B i r (a / d) hi hr hne ?_
    intro x y h1 h2
    rw [hx x y h1 h2]
    congr 2
    ring
theorem det_rowop3 : Stmt.det_rowop3 := by
  intro n A B i r a d h
  obtain ⟨hi, hr, hne⟩ := h
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ B x y = if x = i then A i y - a * (A r y / d) else A x y
  · exact Or.inr hx
  · left
    push Not at hx
    refine rowop_aux n A B i r (a / d) hi hr hne ?_
    intro x y h1 h2
    rw [hx x y h1 h2]
    congr 2
    ring

theorem det_triang : Stmt.det_triang := by
  intro n A
  by_cases h : ∃ (x y : ℤ), y ≥ 0 ∧ y < x ∧ x < n ∧ ¬ A x y = 0
  · exact Or.inr h
  · left
    push Not at h
    have ht : (tN n.toNat A).BlockTriangular id := by
      intro i j hij
      have hi := i.isLt
      have : (j : ℕ) < (i : ℕ) := hij
      exact h _ _ (by omega) (by omega) (by omega)
    rw [Det_nat n _ rfl, Matrix.det_of_isUpperTriangular ht, dprod, Finset.prod_range]
    rfl

theorem det_zpiv : Stmt.det_zpiv := by
  intro n A r hr
  by_cases h1 : ∃ (x y : ℤ), y ≥ 0 ∧ y < x ∧ x < n ∧ y < r ∧ ¬ A x y = 0
  · exact Or.inr (Or.inl h1)
  by_cases h2 : ∃ (x : ℤ), r ≤ x ∧ x < n ∧ ¬ A x r = 0
  · exact Or.inr (Or.inr h2)
  left
  push Not at h1 h2
  rw [Det_nat n _ rfl, Matrix.det_apply]
  apply Finset.sum_eq_zero
  intro σ _
  suffices hs : ∃ j : Fin n.toNat, tN n.toNat A (σ j) j = 0 by
    obtain ⟨j, hj⟩ := hs
    have hp : ∏ i, tN n.toNat A (σ i) i = 0 := Finset.prod_eq_zero (Finset.mem_univ j) hj
    rw [hp, smul_zero]
  by_contra hc
  push Not at hc
  have key : ∀ j : Fin n.toNat, ((j : ℕ) : ℤ) ≤ r → ((σ j : ℕ) : ℤ) < r := by
    intro j hj
    by_contra hge
    have hl := (σ j).isLt
    apply hc j
    show A _ _ = 0
    by_cases e : ((j : ℕ) : ℤ) = r
    · rw [e]; exact h2 _ (by omega) (by omega)
    · exact h1 _ _ (by omega) (by omega) (by omega) (by omega)
  have hcard : (Finset.range r.toNat).card < (Finset.univ.filter (fun j : Fin n.toNat => ((j : ℕ) : ℤ) ≤ r)).card := by
    rw [Finset.card_range]
    have : Finset.univ.filter (fun j : Fin n.toNat => ((j : ℕ) : ℤ) ≤ r) = Finset.Iic ⟨r.toNat, by omega⟩ := by
      ext j
      simp only [Finset.mem_filter, Finset.mem_univ, true_and, Finset.mem_Iic, Fin.le_def]
      omega
    rw [this, Fin.card_Iic]
    exact Nat.lt_succ_self _
  obtain ⟨a, ha, b, hb, hab, e⟩ := Finset.exists_ne_map_eq_of_card_lt_of_maps_to (f := fun j => ((σ j : Fin n.toNat) : ℕ)) hcard (by
    intro j hj
    have hj' : ((j : ℕ) : ℤ) ≤ r := by simpa using hj
    have := key j hj'
    simp only [Finset.coe_range, Set.mem_Iio]
    omega)
  exact hab (σ.injective (Fin.ext e))

theorem dprod_base : Stmt.dprod_base := by
  intro A k h
  have : k.toNat = 0 := by omega
  simp [dprod, this]
theorem dprod_step : Stmt.dprod_step := by
  intro A k h
  have e : (k + 1).toNat = k.toNat + 1 := by omega
  have e2 : ((k.toNat : ℕ) : ℤ) = k := by omega
  simp only [dprod, e, Finset.prod_range_succ, e2]
theorem dprod_zero : Stmt.dprod_zero := by
  intro A k q h
  obtain ⟨⟨h0, h1⟩, hz⟩ := h
  have e2 : ((q.toNat : ℕ) : ℤ) = q := by omega
  exact Finset.prod_eq_zero (Finset.mem_range.mpr (by omega : q.toNat < k.toNat)) (by rw [e2]; exact hz)

theorem zq_intro : Stmt.zq_intro := by
  intro n A p q h
  obtain ⟨⟨h0, h1⟩, h2⟩ := h
  by_cases hx : ∃ (x : ℤ), q ≤ x ∧ x < n ∧ ¬ A x q = 0
  · exact Or.inr hx
  · left
    push Not at hx
    exact ⟨q, h0, h1, h2, hx⟩
theorem zq_elim : Stmt.zq_elim := by
  intro n A p h
  obtain ⟨q, h0, h1, h2, hx⟩ := h
  exact ⟨q, ⟨h0, h1⟩, h2, trivial, hx q le_rfl h2, fun x hh => hx x hh.1 hh.2⟩

theorem cof_def : Stmt.cof_def := by
  intro n A i j
  rfl

theorem tN_minor (m : ℕ) (A : Mat) (i j : Fin (m + 1)) :
    tN m (MINOR A (i : ℕ) (j : ℕ)) = (tN (m + 1) A).submatrix i.succAbove j.succAbove := by
  ext x y
  simp only [tN, MINOR, Matrix.submatrix_apply]
  have aux : ∀ (a : Fin m) (b : Fin (m + 1)),
      ((a : ℕ) : ℤ) + (if ((a : ℕ) : ℤ) ≥ ((b : ℕ) : ℤ) then 1 else 0) = (((b.succAbove a : Fin (m + 1)) : ℕ) : ℤ) := by
    intro a b
    by_cases h : (a : ℕ) < (b : ℕ)
    · rw [if_neg (by omega), Fin.succAbove_of_castSucc_lt _ _ (by simpa [Fin.lt_def] using h)]
      simp
    · rw [if_pos (by omega), Fin.succAbove_of_le_castSucc _ _ (by simp [Fin.le_def]; omega)]
      simp
  rw [aux x i, aux y j]

theorem cof_adj (m : ℕ) (A : Mat) (n : ℤ) (hn : n.toNat = m + 1) (i j : Fin (m + 1)) :
    cof n A (j : ℕ) (i : ℕ) = (tN (m + 1) A).adjugate i j := by
  rw [Matrix.adjugate_fin_succ_eq_det_submatrix, cof, Det_nat (n - 1) m (by omega), tN_minor]
  by_cases h : (((j : ℕ) : ℤ) + ((i : ℕ) : ℤ)) % 2 = 0
  · rw [if_pos h]
    have : Even ((j : ℕ) + (i : ℕ)) := by rw [Nat.even_iff]; omega
    rw [this.neg_one_pow, one_mul]
  · rw [if_neg h]
    have : Odd ((j : ℕ) + (i : ℕ)) := by rw [Nat.odd_iff]; omega
    rw [this.neg_one_pow, neg_one_mul]

theorem inv_intro : Stmt.inv_intro := by
  intro n A R h
  obtain ⟨hn, hd⟩ := h
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ R x y = cof n A y x / Det n A
  · exact Or.inr hx
  left
  push Not at hx
  obtain ⟨m, hm⟩ : ∃ m, n.toNat = m + 1 := ⟨n.toNat - 1, by omega⟩
  have hD := Det_nat n _ hm A
  have e : tN (m + 1) R = (Det n A)⁻¹ • (tN (m + 1) A).adjugate := by
    ext x y
    have hxl := x.isLt
    have hyl := y.isLt
    rw [Matrix.smul_apply, ← cof_adj m A n hm]
    show R _ _ = _
    rw [hx _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩, smul_eq_mul]
    ring
  rw [isInv, toM_tN, toM_tN]
  revert hm
  generalize n.toNat = q
  intro hm
  subst hm
  rw [e, Matrix.smul_mul, Matrix.mul_smul, Matrix.adjugate_mul, Matrix.mul_adjugate, hD]
  rw [hD] at hd
  rw [smul_smul, inv_mul_cancel₀ hd, one_smul]
  exact ⟨rfl, rfl⟩

theorem dot_mul (n : ℤ) (A B : Mat) (x y : ℤ) (hx : x ≥ 0 ∧ x < n) (hy : y ≥ 0 ∧ y < n) :
    dot A B x y n = (tN n.toNat A * tN n.toNat B) ⟨x.toNat, by omega⟩ ⟨y.toNat, by omega⟩ := by
  have ex : ((x.toNat : ℕ) : ℤ) = x := by omega
  have ey : ((y.toNat : ℕ) : ℤ) = y := by omega
  rw [Matrix.mul_apply, dot, Finset.sum_range]
  simp only [tN, ex, ey]

theorem one_tN (n : ℤ) (x y : ℤ) (hx : x ≥ 0 ∧ x < n) (hy : y ≥ 0 ∧ y < n) :
    (1 : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) ⟨x.toNat, by omega⟩ ⟨y.toNat, by omega⟩ = if x = y then 1 else 0 := by
  rw [Matrix.one_apply]
  by_cases h : x = y
  · subst h; simp
  · rw [if_neg h, if_neg]
    intro e
    have := congrArg Fin.val e
    simp at this
    omega

theorem inv_left : Stmt.inv_left := by
  intro n A R x y h
  obtain ⟨⟨h1, h2⟩, hx, hy⟩ := h
  rw [toM_tN, toM_tN] at h1
  rw [dot_mul n R A x y hx hy, h1, one_tN n x y hx hy]
theorem inv_right : Stmt.inv_right := by
  intro n A R x y h
  obtain ⟨⟨h1, h2⟩, hx, hy⟩ := h
  rw [toM_tN, toM_tN] at h2
  rw [dot_mul n A R x y hx hy, h2, one_tN n x y hx hy]

theorem pow_zero : Stmt.pow_zero := by
  intro n A R
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ R x y = if x = y then 1 else 0
  · exact Or.inr hx
  left
  push Not at hx
  refine ⟨le_rfl, ?_⟩
  rw [Int.toNat_zero, _root_.pow_zero]
  ext i j
  have := i.isLt
  have := j.isLt
  show R _ _ = _
  rw [hx _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩, ← one_tN n _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩]
  rfl
theorem pow_one : Stmt.pow_one := by
  intro n A R
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ R x y = A x y
  · exact Or.inr hx
  left
  push Not at hx
  refine ⟨by omega, ?_⟩
  rw [Int.toNat_one, _root_.pow_one]
  exact tN_ext hx
theorem pow_add : Stmt.pow_add := by
  intro n A M N R a b h
  obtain ⟨⟨_, hM⟩, ⟨_, hN⟩, ha, hb, hR⟩ := h
  refine ⟨by omega, ?_⟩
  rw [hR, hM, hN, ← _root_.pow_add]
  congr 1
  omega
theorem pow_inv : Stmt.pow_inv := by
  intro n A M R k h
  obtain ⟨⟨h1, h2⟩, hk, hR⟩ := h
  refine ⟨⟨⟨toM n A, toM n M, h2, h1⟩, rfl⟩, hk, ?_⟩
  rw [hR, Matrix.inv_eq_right_inv h2]
theorem prod_intro : Stmt.prod_intro := by
  intro n A M R
  by_cases hx : ∃ (x y : ℤ), (x ≥ 0 ∧ x < n) ∧ (y ≥ 0 ∧ y < n) ∧ ¬ R x y = dot A M x y n
  · exact Or.inr hx
  left
  push Not at hx
  show tN n.toNat R = tN n.toNat A * tN n.toNat M
  ext i j
  have := i.isLt
  have := j.isLt
  show R _ _ = _
  rw [hx _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩, dot_mul n _ _ _ _ ⟨by omega, by omega⟩ ⟨by omega, by omega⟩]
  simp

theorem luT_up (A : Mat) (x y : ℕ) (h : x ≤ y) :
    luT A x y = A x y - ∑ p ∈ Finset.range x, luT A x p * luT A p y := by
  rw [luT, if_pos h, Finset.sum_range]
theorem luT_low (A : Mat) (x y : ℕ) (h : y < x) :
    luT A x y = (A x y - ∑ p ∈ Finset.range y, luT A x p * luT A p y) / luT A y y := by
  rw [luT, if_neg (by omega), Finset.sum_range]

theorem UU_nat (n : ℤ) (A : Mat) (x y : ℕ) : UU n A x y = if x ≤ y then luT A x y else 0 := by
  simp [UU]
theorem LL_nat (n : ℤ) (A : Mat) (x y : ℕ) : LL n A x y = if y < x then luT A x y else if x = y then 1 else 0 := by
  simp [LL]

theorem dotLU (n : ℤ) (A : Mat) (x y k : ℕ) (hx : k ≤ x) (hy : k ≤ y + 1) :
    dot (LL n A) (UU n A) x y k = ∑ p ∈ Finset.range k, luT A x p * luT A p y := by
  rw [dot, Int.toNat_natCast]
  apply Finset.sum_congr rfl
  intro p hp
  have := Finset.mem_range.mp hp
  rw [LL_nat, UU_nat, if_pos (by omega), if_pos (by omega)]

theorem uu_def : Stmt.uu_def := by
  intro n A x y h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans h.1 h.2.1)
  rw [dotLU n A a b a le_rfl (by omega), UU_nat, if_pos (by omega), luT_up A a b (by omega)]
theorem uu_low : Stmt.uu_low := by
  intro n A x y h
  simp [UU]
  omega
theorem ll_def : Stmt.ll_def := by
  intro n A x y h
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans h.1 (le_of_lt h.2.1))
  rw [dotLU n A a b b (by omega) (by omega), LL_nat, if_pos (by omega), UU_nat, if_pos le_rfl, luT_low A a b (by omega)]
theorem ll_up : Stmt.ll_up := by
  intro n A x y h
  show (if y < x then _ else _) = _
  rw [if_neg (by omega)]

/-- a sum that stops at index k -/
theorem sum_stop (f : ℕ → ℝ) (k m : ℕ) (hk : k < m) (h : ∀ p, k < p → f p = 0) :
    ∑ p ∈ Finset.range m, f p = ∑ p ∈ Finset.range k, f p + f k := by
  rw [← Finset.sum_range_succ]
  symm
  apply Finset.sum_subset
  · intro p hp
    have := Finset.mem_range.mp hp
    exact Finset.mem_range.mpr (by omega)
  · intro p _ hp
    apply h
    have : ¬ p < k + 1 := fun e => hp (Finset.mem_range.mpr e)
    omega

theorem lu_prod_nat (n : ℤ) (A : Mat) (m x y : ℕ) (hx : x < m) (hy : y < m) (hp : y < x → luT A y y ≠ 0) :
    ∑ p ∈ Finset.range m, LL n A x p * UU n A p y = A x y := by
  have h0 : ∀ k : ℕ, k ≤ x → k ≤ y + 1 → ∑ p ∈ Finset.range k, LL n A x p * UU n A p y = ∑ p ∈ Finset.range k, luT A x p * luT A p y := by
    intro k h1 h2
    have := dotLU n A x y k h1 h2
    rw [dot, Int.toNat_natCast] at this
    exact this
  by_cases h : x ≤ y
  · rw [sum_stop _ x m hx, h0 x le_rfl (by omega), LL_nat, if_neg (by omega), if_pos rfl, UU_nat, if_pos h, luT_up A x y h]
    · ring
    · intro p hp
      rw [LL_nat, if_neg (by omega), if_neg (by omega), zero_mul]
  · have h' : y < x := by omega
    rw [sum_stop _ y m hy, h0 y (by omega) (by omega), LL_nat, if_pos h', UU_nat, if_pos le_rfl, luT_low A x y h',
      div_mul_cancel₀ _ (hp h')]
    · ring
    · intro p hp
      rw [UU_nat, if_neg (by omega), mul_zero]

theorem lu_prod : Stmt.lu_prod := by
  intro n A x y h
  obtain ⟨⟨hx0, hx⟩, hy0, hy⟩ := h
  by_cases hk : ∃ k : ℤ, (k ≥ 0 ∧ k < n) ∧ UU n A k k = 0
  · exact Or.inr hk
  left
  push Not at hk
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hx0
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hy0
  rw [dot]
  apply lu_prod_nat n A n.toNat a b (by omega) (by omega)
  intro _
  have := hk b ⟨by omega, by omega⟩
  rwa [UU_nat, if_pos le_rfl] at this

theorem lu_elim : Stmt.lu_elim := by
  intro n A x y k h
  obtain ⟨hy0, hyx, hx, hk⟩ := h
  by_cases hz : UU n A y y = 0
  · exact Or.inl hz
  right
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hy0
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans hy0 (le_of_lt hyx))
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans hy0 (le_of_lt hk))
  rw [UU_nat, if_pos le_rfl] at hz
  have h0 := dotLU n A a b b (by omega) (by omega)
  rw [dot, Int.toNat_natCast] at h0
  rw [dot, Int.toNat_natCast, sum_stop _ b m (by omega), h0, LL_nat, if_pos (by omega), UU_nat, if_pos le_rfl,
    luT_low A a b (by omega), div_mul_cancel₀ _ hz]
  · ring
  · intro p hp
    rw [UU_nat, if_neg (by omega), mul_zero]

theorem det_lu (A : Mat) (k : ℕ) (h : ∀ j, j < k → luT A j j ≠ 0) :
    Det ((k : ℤ) + 1) A = ∏ p ∈ Finset.range (k + 1), luT A p p := by
  rw [Det_nat _ (k + 1) (by omega)]
  have e : tN (k + 1) A = tN (k + 1) (LL 0 A) * tN (k + 1) (UU 0 A) := by
    ext x y
    have := x.isLt
    have := y.isLt
    rw [Matrix.mul_apply]
    have := lu_prod_nat 0 A (k + 1) x y (by omega) (by omega) (fun hh => h y (by omega))
    rw [Finset.sum_range] at this
    exact this.symm
  have hL : (tN (k + 1) (LL 0 A)).det = 1 := by
    rw [Matrix.det_of_isLowerTriangular]
    · apply Finset.prod_eq_one
      intro x _
      show LL 0 A _ _ = 1
      rw [LL_nat, if_neg (by omega), if_pos rfl]
    · intro i j hij
      have : (i : ℕ) < (j : ℕ) := hij
      show LL 0 A _ _ = 0
      rw [LL_nat, if_neg (by omega), if_neg (by omega)]
  have hU : (tN (k + 1) (UU 0 A)).det = ∏ p ∈ Finset.range (k + 1), luT A p p := by
    rw [Matrix.det_of_isUpperTriangular, Finset.prod_range]
    · apply Finset.prod_congr rfl
      intro x _
      show UU 0 A _ _ = _
      rw [UU_nat, if_pos le_rfl]
    · intro i j hij
      have : (j : ℕ) < (i : ℕ) := hij
      show UU 0 A _ _ = 0
      rw [UU_nat, if_neg (by omega)]
  rw [e, Matrix.det_mul, hL, hU, one_mul]

theorem lumin_intro : Stmt.lumin_intro := by
  intro n A k h
  obtain ⟨⟨hk0, hk⟩, hz⟩ := h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hk0
  rw [UU_nat, if_pos le_rfl] at hz
  have hex : ∃ j, luT A j j = 0 := ⟨a, hz⟩
  have hle : Nat.find hex ≤ a := Nat.find_le hz
  refine ⟨(Nat.find hex : ℕ), by omega, by omega, ?_⟩
  rw [det_lu A (Nat.find hex) (fun j hj => Nat.find_min hex hj)]
  exact Finset.prod_eq_zero (Finset.mem_range.mpr (Nat.lt_succ_self _)) (Nat.find_spec hex)

theorem lumin_elim : Stmt.lumin_elim := by
  intro n A h
  obtain ⟨k, hk0, hk, hd⟩ := h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hk0
  by_contra hc
  push Not at hc
  have hne : ∀ j : ℕ, j ≤ a → luT A j j ≠ 0 := by
    intro j hj
    have := hc j ⟨by omega, by omega⟩ trivial
    rwa [UU_nat, if_pos le_rfl] at this
  rw [det_lu A a (fun j hj => hne j (by omega))] at hd
  rw [Finset.prod_eq_zero_iff] at hd
  obtain ⟨p, hp, hz⟩ := hd
  exact hne p (by have := Finset.mem_range.mp hp; omega) hz

theorem chT_up (A : Mat) (x y : ℕ) (h : x < y) : chT A x y = 0 := by
  rw [chT, if_pos h]
theorem chT_diag (A : Mat) (x : ℕ) :
    chT A x x = Real.sqrt (A x x - ∑ p ∈ Finset.range x, chT A x p * chT A x p) := by
  rw [chT, if_neg (lt_irrefl x), if_pos rfl, Finset.sum_range]
theorem chT_low (A : Mat) (x y : ℕ) (h : y < x) :
    chT A x y = (A x y - ∑ p ∈ Finset.range y, chT A x p * chT A y p) / chT A y y := by
  rw [chT, if_neg (by omega), if_neg (by omega), Finset.sum_range]

theorem CH_nat (n : ℤ) (A : Mat) (x y : ℕ) : CH n A x y = chT A x y := by
  simp [CH]
theorem dotCH (n : ℤ) (A : Mat) (x y k : ℕ) :
    dotT (CH n A) (CH n A) x y k = ∑ p ∈ Finset.range k, chT A x p * chT A y p := by
  rw [dotT, Int.toNat_natCast]
  apply Finset.sum_congr rfl
  intro p _
  rw [CH_nat, CH_nat]

theorem ch_up : Stmt.ch_up := by
  intro n A x y h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans h.1 (le_of_lt h.2.1))
  rw [CH_nat, chT_up A a b (by omega)]
theorem ch_diag : Stmt.ch_diag := by
  intro n A x h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  rw [dotCH, CH_nat, chT_diag]
theorem ch_low : Stmt.ch_low := by
  intro n A x y h
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le h.1
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans h.1 (le_of_lt h.2.1))
  rw [dotCH, CH_nat, CH_nat, chT_low A a b (by omega)]

/-- what is left of the diagonal entry -/
noncomputable def sch (A : Mat) (x : ℕ) : ℝ := A x x - ∑ p ∈ Finset.range x, chT A x p * chT A x p

theorem ch_low_prod (A : Mat) (x y : ℕ) (h : y < x) (hp : chT A y y ≠ 0) :
    ∑ p ∈ Finset.range y, chT A x p * chT A y p + chT A x y * chT A y y = A x y := by
  rw [chT_low A x y h, div_mul_cancel₀ _ hp]
  ring
theorem ch_diag_prod (A : Mat) (x : ℕ) (hp : 0 ≤ sch A x) :
    ∑ p ∈ Finset.range x, chT A x p * chT A x p + chT A x x * chT A x x = A x x := by
  rw [sch] at hp
  rw [chT_diag A x, Real.mul_self_sqrt hp]
  ring

theorem ch_prod_nat (A : Mat) (m x y : ℕ) (hx : x < m) (hy : y < m) (hs : ∀ a b : ℕ, a < m → b < m → A a b = A b a)
    (hp : ∀ j, j < m → 0 < chT A j j ∧ 0 < sch A j) : ∑ p ∈ Finset.range m, chT A x p * chT A y p = A x y := by
  rcases lt_trichotomy y x with h | h | h
  · rw [sum_stop _ y m hy, ch_low_prod A x y h (ne_of_gt (hp y hy).1)]
    intro p h1
    rw [chT_up A y p h1, mul_zero]
  · subst h
    rw [sum_stop _ y m hy, ch_diag_prod A y (le_of_lt (hp y hy).2)]
    intro p h1
    rw [chT_up A y p h1, mul_zero]
  · rw [sum_stop _ x m hx, hs x y hx hy, ← ch_low_prod A y x h (ne_of_gt (hp x hx).1)]
    · congr 1
      · apply Finset.sum_congr rfl
        intro p _
        ring
      · ring
    · intro p h1
      rw [chT_up A x p h1, zero_mul]

/-- the factor of the leading block of order k+1 with the last diagonal entry replaced -/
noncomputable def fac (A : Mat) (k : ℕ) (s : ℝ) : Matrix (Fin (k + 1)) (Fin (k + 1)) ℝ :=
  fun x y => if (x : ℕ) = k ∧ (y : ℕ) = k then s else chT A x y

theorem det_fac (A : Mat) (k : ℕ) (s : ℝ) : (fac A k s).det = (∏ p ∈ Finset.range k, chT A p p) * s := by
  rw [Matrix.det_of_isLowerTriangular]
  · rw [Fin.prod_univ_castSucc, Finset.prod_range]
    congr 1
    · apply Finset.prod_congr rfl
      intro p _
      have := p.isLt
      simp only [fac, Fin.val_castSucc]
      rw [if_neg (by omega)]
    · simp [fac]
  · intro i j hij
    have h : (i : ℕ) < (j : ℕ) := hij
    have := j.isLt
    show (if _ then _ else _) = _
    rw [if_neg (by omega), chT_up A i j h]

theorem ch_step (A : Mat) (k : ℕ) (hs : ∀ a b : ℕ, a < k + 1 → b < k + 1 → A a b = A b a)
    (hp : ∀ j, j < k → 0 < chT A j j ∧ 0 < sch A j) (hd : 0 < Det ((k : ℤ) + 1) A) : 0 < sch A k := by
  rw [Det_nat _ (k + 1) (by omega)] at hd
  have e : tN (k + 1) A = fac A k 1 * (fac A k (sch A k)).transpose := by
    ext x y
    have hxl := x.isLt
    have hyl := y.isLt
    rw [Matrix.mul_apply, Fin.sum_univ_castSucc]
    simp only [Matrix.transpose_apply, fac, Fin.val_castSucc, Fin.val_last, and_true]
    have hsum : ∀ a b : ℕ, (∑ p : Fin k, (if a = k ∧ (p : ℕ) = k then (1 : ℝ) else chT A a p) *
        (if b = k ∧ (p : ℕ) = k then sch A k else chT A b p)) = ∑ p ∈ Finset.range k, chT A a p * chT A b p := by
      intro a b
      rw [Finset.sum_range]
      apply Finset.sum_congr rfl
      intro p _
      have := p.isLt
      rw [if_neg (by omega), if_neg (by omega)]
    rw [hsum]
    show A _ _ = _
    by_cases hx : (x : ℕ) = k
    · by_cases hy : (y : ℕ) = k
      · rw [if_pos hx, if_pos hy, hx, hy, sch]; ring
      · rw [if_pos hx, if_neg hy, hx, chT_up A y k (by omega), mul_zero, add_zero,
          sum_stop _ y k (by omega), ch_low_prod A k y (by omega) (ne_of_gt (hp y (by omega)).1)]
        intro p h1
        rw [chT_up A y p h1, mul_zero]
    · by_cases hy : (y : ℕ) = k
      · rw [if_neg hx, hy, chT_up A x k (by omega), zero_mul, add_zero, hs x k (by omega) (by omega),
          sum_stop _ x k (by omega), ← ch_low_prod A k x (by omega) (ne_of_gt (hp x (by omega)).1)]
        · congr 1
          · apply Finset.sum_congr rfl
            intro p _
            ring
          · ring
        · intro p h1
          rw [chT_up A x p h1, zero_mul]
      · rw [if_neg hx, if_neg hy, chT_up A x k (by omega), zero_mul, add_zero,
          ch_prod_nat A k x y (by omega) (by omega) (fun a b ha hb => hs a b (by omega) (by omega)) hp]
  rw [e, Matrix.det_mul, Matrix.det_transpose, det_fac, det_fac] at hd
  have hP : 0 < ∏ p ∈ Finset.range k, chT A p p :=
    Finset.prod_pos (fun p h => (hp p (Finset.mem_range.mp h)).1)
  rw [mul_one, ← mul_assoc] at hd
  exact (pos_iff_pos_of_mul_pos hd).mp (mul_pos hP hP)

theorem ch_all (n : ℤ) (A : Mat) (h : spd n A) : ∀ x : ℕ, (x : ℤ) < n → 0 < chT A x x ∧ 0 < sch A x := by
  intro x
  induction x using Nat.strong_induction_on with
  | _ x ih =>
    intro hx
    have hs : 0 < sch A x := by
      apply ch_step A x
      · intro a b ha hb
        exact h.1 _ _ (by omega) (by omega) (by omega) (by omega)
      · intro j hj
        exact ih j hj (by omega)
      · exact h.2 x (by omega) hx
    refine ⟨?_, hs⟩
    rw [chT_diag]
    exact Real.sqrt_pos.mpr hs

theorem ch_pos : Stmt.ch_pos := by
  intro n A x h
  obtain ⟨hs, hx0, hx⟩ := h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hx0
  rw [dotCH, CH_nat]
  exact ch_all n A hs a hx

theorem ch_prod : Stmt.ch_prod := by
  intro n A x y h
  obtain ⟨hs, ⟨hx0, hx⟩, hy0, hy⟩ := h
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hx0
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hy0
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans hx0 (le_of_lt hx))
  rw [dotCH]
  exact ch_prod_nat A m a b (by omega) (by omega)
    (fun p q hp hq => hs.1 _ _ (by omega) (by omega) (by omega) (by omega))
    (fun j hj => ch_all _ A hs j (by omega))

theorem rmul_neg : Stmt.rmul_neg := by
  intro a b c h
  rw [h]; ring
theorem dot_one_P : Stmt.dot_one_P := by
  intro α o A B i j k h
  have := dot_step_P o A B i j 0 (le_refl _)
  rw [dot_base_P o A B i j 0 (le_refl _)] at this
  subst h
  simpa using this
theorem dotT_one_P : Stmt.dotT_one_P := by
  intro α o A B i j k h
  have := dotT_step_P o A B i j 0 (le_refl _)
  rw [dotT_base_P o A B i j 0 (le_refl _)] at this
  subst h
  simpa using this
theorem dot_one : Stmt.dot_one := by
  intro A B i j k h
  subst h
  simp [dot]
theorem dotT_one : Stmt.dotT_one := by
  intro A B i j k h
  subst h
  simp [dotT]
theorem dprod_one : Stmt.dprod_one := by
  intro A k h
  subst h
  simp [dprod]
theorem dprod_prev : Stmt.dprod_prev := by
  intro A k m h
  rw [h.2]
  exact dprod_step A k h.1
theorem dprod_congr : Stmt.dprod_congr := by
  intro A B k
  by_cases hx : ∃ (x : ℤ), (x ≥ 0 ∧ x < k) ∧ ¬ A x x = B x x
  · exact Or.inr hx
  left
  push Not at hx
  refine Finset.prod_congr rfl ?_
  intro q hq
  have := Finset.mem_range.mp hq
  exact hx q ⟨by omega, by omega⟩

theorem pm_init : Stmt.pm_init := by
  intro n B R A p q
  by_cases hpq : p = q
  swap
  · exact Or.inr (Or.inl hpq)
  by_cases hp : p < 0
  · exact Or.inr (Or.inr (Or.inl hp))
  rcases pow_zero n B R with h | h
  swap
  · exact Or.inr (Or.inr (Or.inr (Or.inl h)))
  rcases pow_one n B A with h1 | h1
  swap
  · exact Or.inr (Or.inr (Or.inr (Or.inr h1)))
  left
  refine ⟨by omega, 0, 1, ?_, ?_, by push_cast; omega⟩
  · simpa using h.2
  · simpa using h1.2

theorem pm_step : Stmt.pm_step := by
  intro n B R A R2 A2 p q P h
  obtain ⟨⟨hp, a, b, hR, hA, hab⟩, h⟩ := h
  have mulR : (isProd n R A R2 ∨ isProd n A R R2) → toM n R2 = toM n B ^ (a + b) := by
    rintro (h | h)
    · rw [h, hR, hA, ← _root_.pow_add]
    · rw [h, hR, hA, ← _root_.pow_add, add_comm]
  rcases h with ⟨hq, hr, ha⟩ | ⟨hq, hq0, hr, ha⟩
  · have hq0 : 0 ≤ q := by omega
    have hA2 : ∃ c : ℕ, toM n A2 = toM n B ^ c ∧ (q = 0 ∨ c = b + b) := by
      rcases ha with ha | ⟨h0, ha⟩
      · exact ⟨b + b, by rw [ha, hA, ← _root_.pow_add], Or.inr rfl⟩
      · exact ⟨b, by rw [ha, hA], Or.inl h0⟩
    obtain ⟨c, hc, hcb⟩ := hA2
    have hcq : (c : ℤ) * q = b * (2 * q) := by
      rcases hcb with h0 | h0
      · rw [h0]; ring
      · rw [h0]; push_cast; ring
    by_cases h2 : p % 2 = 0
    · rw [if_pos h2] at hr
      refine ⟨hq0, a, c, by rw [hr, hR], hc, ?_⟩
      have e : p = 2 * q := by omega
      rw [hcq, ← hab, e]
    · rw [if_neg h2] at hr
      refine ⟨hq0, a + b, c, mulR hr, hc, ?_⟩
      have e : p = 2 * q + 1 := by omega
      rw [hcq, ← hab, e]; push_cast; ring
  · refine ⟨hq0, a + b, b, mulR hr, by rw [ha, hA], ?_⟩
    rw [hq, ← hab]; push_cast; ring

theorem pm_done : Stmt.pm_done := by
  intro n B R A p P h
  obtain ⟨⟨hp, a, b, hR, hA, hab⟩, h0⟩ := h
  rw [h0] at hab
  have e : P = (a : ℤ) := by rw [← hab]; ring
  refine ⟨by omega, ?_⟩
  rw [hR, e]
  simp

theorem divmod_succ : Stmt.divmod_succ := by
  intro x y h
  obtain ⟨hx, hy⟩ := h
  have e := Int.emod_add_mul_ediv x y
  have m0 := Int.emod_nonneg x (by omega : y ≠ 0)
  have m1 := Int.emod_lt_of_pos x hy
  refine ⟨Int.ediv_nonneg hx (by omega), m0, m1, by linarith [mul_comm y (x / y)], ?_⟩
  split_ifs with hs
  · have h1 : x + 1 = (x % y + 1) + y * (x / y) := by linarith
    refine ⟨?_, ?_⟩
    · rw [h1, Int.add_mul_ediv_left _ _ (by omega : y ≠ 0), Int.ediv_eq_zero_of_lt (by omega) hs, zero_add]
    · rw [h1, Int.add_mul_emod_self_left, Int.emod_eq_of_lt (by omega) hs]
  · have hm : x % y + 1 = y := by omega
    have h1 : x + 1 = (x / y + 1) * y := by linarith [mul_comm y (x / y)]
    refine ⟨?_, ?_⟩
    · rw [h1, Int.mul_ediv_cancel _ (by omega : y ≠ 0)]
    · rw [h1, Int.mul_emod_left]

theorem div_below : Stmt.div_below := by
  intro x y d h
  obtain ⟨hx, hy, hd⟩ := h
  refine ⟨fun hl => Int.ediv_lt_of_lt_mul hy hl, Int.mul_ediv_cancel _ (by omega), Int.mul_emod_left _ _⟩

end Proofs
