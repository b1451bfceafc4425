/-
Definitions of the specification functions the contracts are written in (mlv/alg.py).
The statements in Stmts.lean are generated from the SMT formulas; Proofs.lean proves them about these definitions.
-/
import Mathlib

set_option autoImplicit false
open Classical

namespace MLV

abbrev Mat := ℤ → ℤ → ℝ

/-- element operations of an arbitrary element type (mode P) -/
structure Ops (α : Type) where
  add : α → α → α
  sub : α → α → α
  mul : α → α → α
  div : α → α → α
  neg : α → α
  ofint : ℤ → α
  abs : α → α
  eq : α → α → Prop

/-- an output stream: a trace type, items and how an item is appended -/
structure Out (α τ ι : Type) where
  push : τ → ι → τ
  num : α → ι
  chr : ℤ → ι

/-! ### generic (mode P) definitions: left-to-right folds -/

/-- fold `f` over `0 .. k-1` -/
def foldN {β : Type} (f : ℕ → β → β) (z : β) : ℕ → β
  | 0 => z
  | k + 1 => f k (foldN f z k)

/-- row-major fold: `r` full rows of `c` cells, then `k` cells of row `r` -/
def foldM {β : Type} (f : ℕ → ℕ → β → β) (nl : ℕ → β → β) (z : β) (c r k : ℕ) : β :=
  foldN (fun y acc => f r y acc) (foldN (fun x acc => nl x (foldN (fun y acc => f x y acc) acc c)) z r) k

def dotG {α : Type} (o : Ops α) (A B : ℤ → ℤ → α) (i j k : ℤ) : α :=
  foldN (fun p acc => o.add acc (o.mul (A i p) (B p j))) (o.ofint 0) k.toNat

def dotTG {α : Type} (o : Ops α) (A B : ℤ → ℤ → α) (i j k : ℤ) : α :=
  foldN (fun p acc => o.add acc (o.mul (A i p) (B j p))) (o.ofint 0) k.toNat

def MINORG {α : Type} (A : ℤ → ℤ → α) (i j : ℤ) : ℤ → ℤ → α :=
  fun x y => A (x + if x ≥ i then 1 else 0) (y + if y ≥ j then 1 else 0)

def rsumG {α : Type} (o : Ops α) (A : ℤ → ℤ → α) (c r k : ℤ) : α :=
  foldM (fun x y acc => o.add acc (A x y)) (fun _ acc => acc) (o.ofint 0) c.toNat r.toNat k.toNat

def vsumG {α : Type} (o : Ops α) (A : ℤ → ℤ → α) (m : α) (c r k : ℤ) : α :=
  foldM (fun x y acc => o.add acc (o.mul (o.sub (A x y) m) (o.sub (A x y) m))) (fun _ acc => acc) (o.ofint 0)
    c.toNat r.toNat k.toNat

/-- what is on the output after printing `r` full rows and `k` cells of the next one -/
def ptrG {α τ ι : Type} (q : Out α τ ι) (t : τ) (A : ℤ → ℤ → α) (c r k : ℤ) : τ :=
  foldM (fun x y acc => q.push (q.push acc (q.num (A x y))) (q.chr 32)) (fun _ acc => q.push acc (q.chr 10)) t
    c.toNat r.toNat k.toNat

/-! ### real numbers -/

/-- sum_{p<k} A[i][p]*B[p][j] -/
noncomputable def dot (A B : Mat) (i j k : ℤ) : ℝ := ∑ p ∈ Finset.range k.toNat, A i p * B p j

/-- sum_{p<k} A[i][p]*B[j][p] -/
noncomputable def dotT (A B : Mat) (i j k : ℤ) : ℝ := ∑ p ∈ Finset.range k.toNat, A i p * B j p

/-- the leading n x n block -/
def toM (n : ℤ) (A : Mat) : Matrix (Fin n.toNat) (Fin n.toNat) ℝ := fun i j => A (i : ℕ) (j : ℕ)

noncomputable def Det (n : ℤ) (A : Mat) : ℝ := (toM n A).det

noncomputable def dprod (A : Mat) (k : ℤ) : ℝ := ∏ p ∈ Finset.range k.toNat, A p p

/-- some column q < p is zero from its diagonal entry down -/
def zq (n : ℤ) (A : Mat) (p : ℤ) : Prop :=
  ∃ q : ℤ, 0 ≤ q ∧ q < p ∧ q < n ∧ ∀ x : ℤ, q ≤ x → x < n → A x q = 0

noncomputable def MINOR (A : Mat) (i j : ℤ) : Mat :=
  fun x y => A (x + if x ≥ i then 1 else 0) (y + if y ≥ j then 1 else 0)

noncomputable def cof (n : ℤ) (A : Mat) (i j : ℤ) : ℝ :=
  if (i + j) % 2 = 0 then Det (n - 1) (MINOR A i j) else -Det (n - 1) (MINOR A i j)

def isInv (n : ℤ) (A R : Mat) : Prop := toM n R * toM n A = 1 ∧ toM n A * toM n R = 1

def isPow (n : ℤ) (A : Mat) (k : ℤ) (R : Mat) : Prop := 0 ≤ k ∧ toM n R = toM n A ^ k.toNat

def isPowInv (n : ℤ) (A : Mat) (k : ℤ) (R : Mat) : Prop :=
  IsUnit (toM n A) ∧ 0 ≤ k ∧ toM n R = (toM n A)⁻¹ ^ k.toNat

def isPM (n : ℤ) (B R A : Mat) (p P : ℤ) : Prop :=
  0 ≤ p ∧ ∃ a b : ℕ, toM n R = toM n B ^ a ∧ toM n A = toM n B ^ b ∧ (a : ℤ) + b * p = P

def isProd (n : ℤ) (A B R : Mat) : Prop := toM n R = toM n A * toM n B

/-- Doolittle elimination, both factors in one table: entry (x,y) is U's for x ≤ y and L's for y < x -/
noncomputable def luT (A : Mat) (x y : ℕ) : ℝ :=
  if x ≤ y then A x y - ∑ p : Fin x, luT A x p * luT A p y
  else (A x y - ∑ p : Fin y, luT A x p * luT A p y) / luT A y y
termination_by (min x y, x + y)
decreasing_by
  all_goals simp_wf
  all_goals (try have := p.isLt)
  all_goals (first | (apply Prod.Lex.left; omega) | (rw [Prod.lex_def]; simp; omega))

noncomputable def UU (_n : ℤ) (A : Mat) : Mat := fun x y =>
  if x ≤ y then luT A x.toNat y.toNat else 0

noncomputable def LL (_n : ℤ) (A : Mat) : Mat := fun x y =>
  if y < x then luT A x.toNat y.toNat else if x = y then 1 else 0

/-- some leading principal minor of order 1..n is zero -/
def lumin (n : ℤ) (A : Mat) : Prop := ∃ k : ℤ, 0 ≤ k ∧ k < n ∧ Det (k + 1) A = 0

/-- symmetric with positive leading principal minors (Sylvester: positive definite) -/
def spd (n : ℤ) (A : Mat) : Prop :=
  (∀ x y : ℤ, 0 ≤ x → x < n → 0 ≤ y → y < n → A x y = A y x) ∧ ∀ k : ℤ, 0 ≤ k → k < n → 0 < Det (k + 1) A

/-- the Cholesky recursion -/
noncomputable def chT (A : Mat) (x y : ℕ) : ℝ :=
  if x < y then 0
  else if x = y then Real.sqrt (A x x - ∑ p : Fin x, chT A x p * chT A x p)
  else (A x y - ∑ p : Fin y, chT A x p * chT A y p) / chT A y y
termination_by (x, y)
decreasing_by
  all_goals simp_wf
  all_goals (try have := p.isLt)
  all_goals (rw [Prod.lex_def]; (first | (simp; done) | (simp; omega)))

noncomputable def CH (_n : ℤ) (A : Mat) : Mat := fun x y => chT A x.toNat y.toNat

/-- row-major partial sum: r full rows of c cells and k cells of row r -/
noncomputable def rsum (A : Mat) (c r k : ℤ) : ℝ :=
  ∑ x ∈ Finset.range r.toNat, ∑ y ∈ Finset.range c.toNat, A x y + ∑ y ∈ Finset.range k.toNat, A r.toNat y

noncomputable def csum (A : Mat) (c r k : ℤ) : ℝ := rsum (fun x y => A y x) c r k

noncomputable def vsum (A : Mat) (m : ℝ) (c r k : ℤ) : ℝ := rsum (fun x y => (A x y - m) * (A x y - m)) c r k

noncomputable def cvsum (A : Mat) (m : ℝ) (c r k : ℤ) : ℝ := vsum (fun x y => A y x) m c r k

/-- number of cells, row-major up to (r, k), with the given property -/
noncomputable def pcnt (p : ℝ → Prop) (A : Mat) (c r k : ℤ) : ℤ :=
  ∑ x ∈ Finset.range r.toNat, ∑ y ∈ Finset.range c.toNat, (if p (A x y) then 1 else 0 : ℤ) +
    ∑ y ∈ Finset.range k.toNat, (if p (A r.toNat y) then 1 else 0 : ℤ)

noncomputable def mcnt (A : Mat) (c r k : ℤ) (z : ℝ) : ℤ := pcnt (fun a => a = z) A c r k

noncomputable def ccnt (A : Mat) (c r k : ℤ) (z : ℝ) : ℤ := pcnt (fun a => a = z) (fun x y => A y x) c r k

noncomputable def mcntle (A : Mat) (r c : ℤ) (z : ℝ) : ℤ := pcnt (fun a => a ≤ z) A c r 0

noncomputable def vcnt (V : ℝ → Prop) (A : Mat) (r c : ℤ) : ℤ := pcnt V A c r 0

/-- occurrences of z among the first k entries of a row -/
noncomputable def rcnt (v : ℤ → ℝ) (k : ℤ) (z : ℝ) : ℤ := ∑ p ∈ Finset.range k.toNat, (if v p = z then 1 else 0 : ℤ)

def peq (v : ℤ → ℝ) (k : ℤ) (A : Mat) (c r s : ℤ) : Prop := ∀ z, rcnt v k z = mcnt A c r s z

def peqc (v : ℤ → ℝ) (k : ℤ) (A : Mat) (c r s : ℤ) : Prop := ∀ z, rcnt v k z = ccnt A c r s z

/-- k-th smallest (from 0) of a bag: the least value with more than k elements up to it -/
noncomputable def ost (b : ℝ → ℤ) (k : ℤ) : ℝ := sInf {z | k < ∑ᶠ w ∈ {w : ℝ | w ≤ z ∧ 0 < b w}, b w}

end MLV
