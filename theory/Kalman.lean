/-
Theory of the specification: what follows, for all inputs and all lengths, from the
recursions the contracts of the code establish.  Everything is over real matrices of
arbitrary finite index types; means are n-by-1 matrices.
-/
import Mathlib

open Matrix

namespace Kalman

set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false
set_option linter.unusedVariables false
set_option linter.unreachableTactic false
set_option linter.unusedTactic false

variable {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m]

/-- column vectors -/
abbrev Vec (n : Type*) := Matrix n (Fin 1) ℝ
abbrev Mat (n m : Type*) := Matrix n m ℝ

macro "expand" : tactic => `(tactic|
  (simp only [Matrix.mul_add, Matrix.add_mul, Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_one, Matrix.one_mul,
    Matrix.mul_assoc, Matrix.mul_neg, Matrix.neg_mul, Matrix.transpose_add, Matrix.transpose_sub, Matrix.transpose_mul,
    Matrix.transpose_one, Matrix.transpose_transpose]))

/-- A model: transition and its Jacobian, observation and its Jacobian, and noises, per time step. -/
structure Sys (n m : Type*) where
  F : ℕ → Vec n → Vec n
  JF : ℕ → Vec n → Mat n n
  h : ℕ → Vec n → Vec m
  JH : ℕ → Vec n → Mat m n
  Q : ℕ → Mat n n
  R : ℕ → Mat m m

/-- The linear model x ↦ A x + c (c the control term), z = H x. -/
def linSys (A : ℕ → Mat n n) (c : ℕ → Vec n) (H : ℕ → Mat m n) (Q : ℕ → Mat n n) (R : ℕ → Mat m m) : Sys n m where
  F k x := A k * x + c k
  JF k _ := A k
  h k x := H k * x
  JH k _ := H k
  Q := Q
  R := R

/-- The model of the extended filter: functions of the mean and of the control of the step. -/
def ekfSys {U : Type*} (f : Vec n → U → Vec n) (JA : Vec n → U → Mat n n) (h : Vec n → Vec m) (JH : Vec n → Mat m n)
    (u : ℕ → U) (Q : ℕ → Mat n n) (R : ℕ → Mat m m) : Sys n m where
  F k x := f x (u k)
  JF k x := JA x (u k)
  h _ x := h x
  JH _ x := JH x
  Q := Q
  R := R

/-- The quantities of one filtering run; index 0 of x, P is the initial estimate, index k+1 the estimate after
observation k. -/
structure Run (n m : Type*) where
  x : ℕ → Vec n
  P : ℕ → Mat n n
  xp : ℕ → Vec n
  Pp : ℕ → Mat n n
  S : ℕ → Mat m m
  K : ℕ → Mat n m

/-- r is the filtering run of model M on the observations z 0 … z (T-1). -/
structure IsFilter (M : Sys n m) (z : ℕ → Vec m) (T : ℕ) (r : Run n m) : Prop where
  xp : ∀ k < T, r.xp k = M.F k (r.x k)
  Pp : ∀ k < T, r.Pp k = M.JF k (r.x k) * r.P k * (M.JF k (r.x k))ᵀ + M.Q k
  S : ∀ k < T, r.S k = M.JH k (r.xp k) * r.Pp k * (M.JH k (r.xp k))ᵀ + M.R k
  K : ∀ k < T, r.K k = r.Pp k * (M.JH k (r.xp k))ᵀ * (r.S k)⁻¹
  x : ∀ k < T, r.x (k + 1) = r.xp k + r.K k * (z k - M.h k (r.xp k))
  P : ∀ k < T, r.P (k + 1) = (1 - r.K k * M.JH k (r.xp k)) * r.Pp k

/-- The smoothed estimates, index k belonging to observation k. -/
structure Smooth (n : Type*) where
  x : ℕ → Vec n
  P : ℕ → Mat n n
  G : ℕ → Mat n n

/-- s is the Rauch-Tung-Striebel smoothing of the run r. -/
structure IsSmoother (M : Sys n m) (T : ℕ) (r : Run n m) (s : Smooth n) : Prop where
  lastx : s.x (T - 1) = r.x T
  lastP : s.P (T - 1) = r.P T
  G : ∀ k < T - 1, s.G k = r.P (k + 1) * (M.JF (k + 1) (r.x (k + 1)))ᵀ * (r.Pp (k + 1))⁻¹
  x : ∀ k < T - 1, s.x k = r.x (k + 1) + s.G k * (s.x (k + 1) - r.xp (k + 1))
  P : ∀ k < T - 1, s.P k = r.P (k + 1) + s.G k * (s.P (k + 1) - r.Pp (k + 1)) * (s.G k)ᵀ

/-! ### One step -/

theorem psd_conj {P : Mat n n} (hP : P.PosSemidef) (A : Mat m n) : (A * P * Aᵀ).PosSemidef := by
  have := hP.mul_mul_conjTranspose_same A
  rwa [conjTranspose_eq_transpose_of_trivial] at this

theorem psd_symm {P : Mat n n} (hP : P.PosSemidef) : Pᵀ = P := by
  have := hP.isHermitian
  rwa [IsHermitian, conjTranspose_eq_transpose_of_trivial] at this

theorem pd_symm {P : Mat n n} (hP : P.PosDef) : Pᵀ = P := psd_symm hP.posSemidef

theorem predCov_psd {A P Q : Mat n n} (hP : P.PosSemidef) (hQ : Q.PosSemidef) : (A * P * Aᵀ + Q).PosSemidef :=
  (psd_conj hP A).add hQ

theorem innov_posDef {H : Mat m n} {P : Mat n n} {R : Mat m m} (hP : P.PosSemidef) (hR : R.PosDef) :
    (H * P * Hᵀ + R).PosDef :=
  PosDef.posSemidef_add (psd_conj hP H) hR

/-- With the gain P Hᵀ S⁻¹ the covariance (1 - K H) P is the error covariance of the estimate (Joseph form).  Used for
the measurement update and, with H the transition matrix, for the smoother. -/
theorem joseph {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : Pᵀ = P)
    (hS : S = H * P * Hᵀ + R) (hdet : IsUnit S.det) (hK : K = P * Hᵀ * S⁻¹) :
    (1 - K * H) * P = (1 - K * H) * P * (1 - K * H)ᵀ + K * R * Kᵀ := by
  have hKS : K * S = P * Hᵀ := by rw [hK, Matrix.nonsing_inv_mul_cancel_right _ _ hdet]
  have hR : R = S - H * P * Hᵀ := by rw [hS]; abel
  have e : (1 - K * H) * P * (1 - K * H)ᵀ + K * R * Kᵀ = (1 - K * H) * P - P * Hᵀ * Kᵀ + K * S * Kᵀ := by
    rw [hR]; expand; abel
  rw [e, hKS]; abel

/-- Competing gains: the error covariance of x + L (z - H x) exceeds (1 - K H) P by (L - K) S (L - K)ᵀ. -/
theorem gain_gap {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : Pᵀ = P) (hsS : Sᵀ = S)
    (hS : S = H * P * Hᵀ + R) (hdet : IsUnit S.det) (hK : K = P * Hᵀ * S⁻¹) (L : Mat n m) :
    (1 - L * H) * P * (1 - L * H)ᵀ + L * R * Lᵀ - (1 - K * H) * P = (L - K) * S * (L - K)ᵀ := by
  have hKS : K * S = P * Hᵀ := by rw [hK, Matrix.nonsing_inv_mul_cancel_right _ _ hdet]
  have hSK : S * Kᵀ = H * P := by
    have := congrArg transpose hKS
    simpa [hP, hsS] using this
  have hR : R = S - H * P * Hᵀ := by rw [hS]; abel
  have e1 : (L - K) * S * (L - K)ᵀ = L * S * Lᵀ - L * (S * Kᵀ) - (K * S) * Lᵀ + K * (S * Kᵀ) := by expand; abel
  rw [e1, hSK, hKS, hR]; expand; abel

/-- The measurement update does not add uncertainty. -/
theorem update_le {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosSemidef) (hR : R.PosDef)
    (hS : S = H * P * Hᵀ + R) (hK : K = P * Hᵀ * S⁻¹) : (P - (1 - K * H) * P).PosSemidef := by
  have hSd : S.PosDef := hS ▸ innov_posDef hP hR
  have hdet := (Matrix.isUnit_iff_isUnit_det _).1 hSd.isUnit
  have hKS : K * S = P * Hᵀ := by rw [hK, Matrix.nonsing_inv_mul_cancel_right _ _ hdet]
  have hSK : S * Kᵀ = H * P := by
    have := congrArg transpose hKS
    simpa [psd_symm hP, pd_symm hSd] using this
  have e : P - (1 - K * H) * P = K * S * Kᵀ := by rw [Matrix.mul_assoc, hSK]; expand; abel
  rw [e]; exact psd_conj hSd.posSemidef K

theorem update_psd {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosSemidef) (hR : R.PosSemidef)
    (hS : S = H * P * Hᵀ + R) (hdet : IsUnit S.det) (hK : K = P * Hᵀ * S⁻¹) : ((1 - K * H) * P).PosSemidef := by
  rw [joseph (psd_symm hP) hS hdet hK]
  exact (psd_conj hP _).add (psd_conj hR _)

/-- C15: no linear combination of prediction and observation has a smaller error covariance. -/
theorem update_optimal {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosSemidef) (hR : R.PosDef)
    (hS : S = H * P * Hᵀ + R) (hK : K = P * Hᵀ * S⁻¹) (L : Mat n m) :
    ((1 - L * H) * P * (1 - L * H)ᵀ + L * R * Lᵀ - (1 - K * H) * P).PosSemidef := by
  have hSd : S.PosDef := hS ▸ innov_posDef hP hR
  have hdet := (Matrix.isUnit_iff_isUnit_det _).1 hSd.isUnit
  rw [gain_gap (psd_symm hP) (pd_symm hSd) hS hdet hK L]
  exact psd_conj hSd.posSemidef _

/-- C15: the covariance returned is the error covariance of the returned estimate. -/
theorem update_cov {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosSemidef) (hR : R.PosDef)
    (hS : S = H * P * Hᵀ + R) (hK : K = P * Hᵀ * S⁻¹) :
    (1 - K * H) * P = (1 - K * H) * P * (1 - K * H)ᵀ + K * R * Kᵀ :=
  joseph (psd_symm hP) hS ((Matrix.isUnit_iff_isUnit_det _).1 (hS ▸ innov_posDef hP hR : S.PosDef).isUnit) hK

/-- The weighted least squares cost of a candidate state. -/
noncomputable def cost (H : Mat m n) (P : Mat n n) (R : Mat m m) (x : Vec n) (z : Vec m) (y : Vec n) : Mat (Fin 1) (Fin 1) :=
  (y - x)ᵀ * P⁻¹ * (y - x) + (z - H * y)ᵀ * R⁻¹ * (z - H * y)

/-- The cost exceeds the cost of the returned mean by a positive definite quadratic form of the difference. -/
theorem cost_gap {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosDef) (hR : R.PosDef)
    (hS : S = H * P * Hᵀ + R) (hK : K = P * Hᵀ * S⁻¹) (x : Vec n) (z : Vec m) (y : Vec n) :
    cost H P R x z y = cost H P R x z (x + K * (z - H * x)) +
      (y - (x + K * (z - H * x)))ᵀ * (P⁻¹ + Hᵀ * R⁻¹ * H) * (y - (x + K * (z - H * x))) := by
  have hSd : S.PosDef := hS ▸ innov_posDef hP.posSemidef hR
  have dS := (Matrix.isUnit_iff_isUnit_det _).1 hSd.isUnit
  have dP := (Matrix.isUnit_iff_isUnit_det _).1 hP.isUnit
  have dR := (Matrix.isUnit_iff_isUnit_det _).1 hR.isUnit
  have sPi : (P⁻¹)ᵀ = P⁻¹ := by rw [Matrix.transpose_nonsing_inv, pd_symm hP]
  have sRi : (R⁻¹)ᵀ = R⁻¹ := by rw [Matrix.transpose_nonsing_inv, pd_symm hR]
  have hKS : K * S = P * Hᵀ := by rw [hK, Matrix.nonsing_inv_mul_cancel_right _ _ dS]
  -- the gradient vanishes at the returned mean
  have g1 : P⁻¹ * K * S = Hᵀ := by
    rw [Matrix.mul_assoc, hKS, ← Matrix.mul_assoc, Matrix.nonsing_inv_mul _ dP, Matrix.one_mul]
  have g2 : (Hᵀ * R⁻¹ * (1 - H * K)) * S = Hᵀ := by
    have e0 : (Hᵀ * R⁻¹ * (1 - H * K)) * S = Hᵀ * R⁻¹ * (S - H * (K * S)) := by expand
    have e : S - H * (K * S) = R := by rw [hKS, hS]; expand; abel
    rw [e0, e, Matrix.mul_assoc, Matrix.nonsing_inv_mul _ dR, Matrix.mul_one]
  have g3 : P⁻¹ * K = Hᵀ * R⁻¹ * (1 - H * K) := by
    have h := g1.trans g2.symm
    have h2 := congrArg (fun X : Mat n m => X * S⁻¹) h
    simpa only [Matrix.mul_nonsing_inv_cancel_right _ _ dS] using h2
  set d := z - H * x with hd
  set e := y - (x + K * d) with he
  have hy : y = x + K * d + e := by rw [he]; abel
  have grad : P⁻¹ * (K * d) - Hᵀ * (R⁻¹ * (d - H * (K * d))) = 0 := by
    have : P⁻¹ * (K * d) - Hᵀ * (R⁻¹ * (d - H * (K * d))) = (P⁻¹ * K - Hᵀ * R⁻¹ * (1 - H * K)) * d := by expand
    rw [this, g3, sub_self, Matrix.zero_mul]
  have gradT : (K * d)ᵀ * P⁻¹ - (d - H * (K * d))ᵀ * R⁻¹ * H = 0 := by
    have := congrArg transpose grad
    simpa [Matrix.transpose_mul, Matrix.transpose_sub, sPi, sRi, Matrix.mul_assoc] using this
  have r1 : z - H * y = (d - H * (K * d)) - H * e := by rw [hy, hd]; expand; abel
  have r2 : z - H * (x + K * d) = d - H * (K * d) := by rw [hd]; expand; abel
  have r3 : y - x = K * d + e := by rw [hy]; abel
  have r4 : x + K * d - x = K * d := by abel
  unfold cost
  rw [r1, r2, r3, r4]
  generalize d - H * (K * d) = w at *
  generalize K * d = v at *
  have a1 : eᵀ * (P⁻¹ * v - Hᵀ * (R⁻¹ * w)) = 0 := by rw [grad, Matrix.mul_zero]
  have a2 : (vᵀ * P⁻¹ - wᵀ * R⁻¹ * H) * e = 0 := by rw [gradT, Matrix.zero_mul]
  have key : (v + e)ᵀ * P⁻¹ * (v + e) + (w - H * e)ᵀ * R⁻¹ * (w - H * e)
      = vᵀ * P⁻¹ * v + wᵀ * R⁻¹ * w + eᵀ * (P⁻¹ + Hᵀ * R⁻¹ * H) * e
        + eᵀ * (P⁻¹ * v - Hᵀ * (R⁻¹ * w)) + (vᵀ * P⁻¹ - wᵀ * R⁻¹ * H) * e := by expand; abel
  rw [key, a1, a2, add_zero, add_zero]

theorem quad_pos {W : Mat n n} (hW : W.PosDef) {e : Vec n} (he : e ≠ 0) : 0 < (eᵀ * W * e) 0 0 := by
  have h0 : (fun i => e i 0) ≠ 0 := by
    intro h; apply he; ext i j; have := congrFun h i; fin_cases j; simpa using this
  have := hW.dotProduct_mulVec_pos h0
  have e : (eᵀ * W * e) 0 0 = star (fun i => e i 0) ⬝ᵥ (W *ᵥ fun i => e i 0) := by
    rw [Matrix.mul_assoc]
    simp only [Matrix.mul_apply, transpose_apply, dotProduct, mulVec, star_trivial]
  rw [e]; exact this

/-- C15: the returned mean is the unique minimiser of the cost. -/
theorem mean_unique_minimiser {H : Mat m n} {P : Mat n n} {R S : Mat m m} {K : Mat n m} (hP : P.PosDef) (hR : R.PosDef)
    (hS : S = H * P * Hᵀ + R) (hK : K = P * Hᵀ * S⁻¹) (x : Vec n) (z : Vec m) (y : Vec n)
    (hy : y ≠ x + K * (z - H * x)) :
    cost H P R x z (x + K * (z - H * x)) 0 0 < cost H P R x z y 0 0 := by
  have hW : (P⁻¹ + Hᵀ * R⁻¹ * H).PosDef := by
    have h2 : (Hᵀ * R⁻¹ * H).PosSemidef := by
      have := psd_conj hR.inv.posSemidef Hᵀ
      rwa [transpose_transpose] at this
    exact PosDef.add_posSemidef hP.inv h2
  rw [cost_gap hP hR hS hK x z y, Matrix.add_apply]
  have := quad_pos hW (sub_ne_zero.2 hy)
  linarith

/-! ### Whole runs -/

section runs
variable {M : Sys n m} {z : ℕ → Vec m} {T : ℕ} {r : Run n m}

/-- Symmetric initial covariance and noises keep every covariance of the run symmetric: the symmetry the contracts of
the loops refer to. -/
theorem symmetric_run (hr : IsFilter M z T r) (h0 : (r.P 0)ᵀ = r.P 0) (hQ : ∀ k < T, (M.Q k)ᵀ = M.Q k)
    (hR : ∀ k < T, (M.R k)ᵀ = M.R k) :
    ∀ k ≤ T, (r.P k)ᵀ = r.P k ∧ ∀ j < k, (r.Pp j)ᵀ = r.Pp j ∧ (r.S j)ᵀ = r.S j := by
  intro k
  induction k with
  | zero => intro _; exact ⟨h0, fun j hj => absurd hj (Nat.not_lt_zero _)⟩
  | succ k ih =>
    intro hk
    have hk' : k < T := hk
    obtain ⟨hP, hold⟩ := ih hk'.le
    have hPp : (r.Pp k)ᵀ = r.Pp k := by
      rw [hr.Pp k hk', transpose_add, hQ k hk']
      simp only [transpose_mul, transpose_transpose, hP, Matrix.mul_assoc]
    have hS : (r.S k)ᵀ = r.S k := by
      rw [hr.S k hk', transpose_add, hR k hk']
      simp only [transpose_mul, transpose_transpose, hPp, Matrix.mul_assoc]
    refine ⟨?_, fun j hj => ?_⟩
    · rw [hr.P k hk', hr.K k hk']
      have : ((r.S k)⁻¹)ᵀ = (r.S k)⁻¹ := by rw [Matrix.transpose_nonsing_inv, hS]
      expand
      simp only [this, hPp, Matrix.mul_assoc]
    · rcases Nat.lt_succ_iff_lt_or_eq.1 hj with h | h
      · exact hold j h
      · exact h ▸ ⟨hPp, hS⟩

theorem symmetric_smooth {s : Smooth n} (hs : IsSmoother M T r s) (hP : ∀ k ≤ T, (r.P k)ᵀ = r.P k)
    (hPp : ∀ k < T, (r.Pp k)ᵀ = r.Pp k) : ∀ k < T, (s.P k)ᵀ = s.P k := by
  have main : ∀ j, j < T → (s.P (T - 1 - j))ᵀ = s.P (T - 1 - j) := by
    intro j
    induction j with
    | zero => intro _; simpa [hs.lastP] using hP T le_rfl
    | succ j ih =>
      intro hj
      have hk : T - 1 - (j + 1) < T - 1 := by omega
      have e : T - 1 - (j + 1) + 1 = T - 1 - j := by omega
      have ih' := ih (by omega)
      rw [← e] at ih'
      rw [hs.P _ hk]
      have h1 := hP (T - 1 - (j + 1) + 1) (by omega)
      have h2 := hPp (T - 1 - (j + 1) + 1) (by omega)
      expand
      simp only [h1, h2, ih', Matrix.mul_assoc]
  intro k hk
  have := main (T - 1 - k) (by omega)
  have e : T - 1 - (T - 1 - k) = k := by omega
  rwa [e] at this

/-- C13. -/
theorem covariances_valid (hr : IsFilter M z T r) (h0 : (r.P 0).PosSemidef) (hQ : ∀ k < T, (M.Q k).PosSemidef)
    (hR : ∀ k < T, (M.R k).PosDef) :
    ∀ k < T, (r.Pp k).PosSemidef ∧ (r.P (k + 1)).PosSemidef ∧ (r.Pp k - r.P (k + 1)).PosSemidef ∧ (r.S k).PosDef := by
  have step : ∀ k < T, (r.P k).PosSemidef →
      (r.Pp k).PosSemidef ∧ (r.P (k + 1)).PosSemidef ∧ (r.Pp k - r.P (k + 1)).PosSemidef ∧ (r.S k).PosDef := by
    intro k hk hP
    have hPp : (r.Pp k).PosSemidef := hr.Pp k hk ▸ predCov_psd hP (hQ k hk)
    have hS : (r.S k).PosDef := hr.S k hk ▸ innov_posDef hPp (hR k hk)
    refine ⟨hPp, ?_, ?_, hS⟩
    · rw [hr.P k hk]
      exact update_psd hPp (hR k hk).posSemidef (hr.S k hk) ((Matrix.isUnit_iff_isUnit_det _).1 hS.isUnit) (hr.K k hk)
    · rw [hr.P k hk]
      exact update_le hPp (hR k hk) (hr.S k hk) (hr.K k hk)
  have allP : ∀ k ≤ T, (r.P k).PosSemidef := by
    intro k
    induction k with
    | zero => intro _; exact h0
    | succ k ih => intro hk; exact (step k hk (ih (Nat.le_of_lt hk))).2.1
  exact fun k hk => step k hk (allP k hk.le)

/-- C14. -/
theorem smoothed_valid {s : Smooth n} (hr : IsFilter M z T r) (hs : IsSmoother M T r s) (h0 : (r.P 0).PosSemidef)
    (hQ : ∀ k < T, (M.Q k).PosSemidef) (hR : ∀ k < T, (M.R k).PosDef) (hinv : ∀ k < T, IsUnit (r.Pp k).det) :
    ∀ k < T, (s.P k).PosSemidef ∧ (r.P (k + 1) - s.P k).PosSemidef := by
  have val := covariances_valid hr h0 hQ hR
  have main : ∀ j, j < T → (s.P (T - 1 - j)).PosSemidef ∧ (r.P (T - 1 - j + 1) - s.P (T - 1 - j)).PosSemidef := by
    intro j
    induction j with
    | zero =>
      intro hj
      have e : T - 1 + 1 = T := by omega
      have hp := (val (T - 1) (by omega)).2.1
      rw [e] at hp
      simp only [Nat.sub_zero, hs.lastP, e, sub_self]
      exact ⟨hp, PosSemidef.zero⟩
    | succ j ih =>
      intro hj
      set k := T - 1 - (j + 1) with hkd
      have hk : k < T - 1 := by omega
      have e : T - 1 - j = k + 1 := by omega
      have ih' := ih (by omega)
      rw [e] at ih'
      have vP := (val k (by omega)).2.1
      obtain ⟨vPp, _, vle, _⟩ := val (k + 1) (by omega)
      have hdet := hinv (k + 1) (by omega)
      have hPp := hr.Pp (k + 1) (by omega)
      have hG := hs.G k hk
      set F := M.JF (k + 1) (r.x (k + 1)) with hF
      have hGP : s.G k * r.Pp (k + 1) = r.P (k + 1) * Fᵀ := by
        rw [hG, Matrix.nonsing_inv_mul_cancel_right _ _ hdet]
      have hPG : r.Pp (k + 1) * (s.G k)ᵀ = F * r.P (k + 1) := by
        have := congrArg transpose hGP
        simpa [psd_symm vP, psd_symm vPp] using this
      -- P - G Pp Gᵀ is the Joseph form of an update with the transition in place of the observation
      have hJ : (r.P (k + 1) - s.G k * r.Pp (k + 1) * (s.G k)ᵀ).PosSemidef := by
        have := update_psd vP (hQ (k + 1) (by omega)) hPp hdet hG
        have e2 : r.P (k + 1) - s.G k * r.Pp (k + 1) * (s.G k)ᵀ = (1 - s.G k * F) * r.P (k + 1) := by
          rw [Matrix.mul_assoc, hPG]; expand
        rwa [e2]
      have hPs := hs.P k hk
      refine ⟨?_, ?_⟩
      · have e3 : s.P k = (r.P (k + 1) - s.G k * r.Pp (k + 1) * (s.G k)ᵀ) + s.G k * s.P (k + 1) * (s.G k)ᵀ := by
          rw [hPs]; expand; abel
        rw [e3]
        exact hJ.add (psd_conj ih'.1 _)
      · have e4 : r.P (k + 1) - s.P k = s.G k * ((r.Pp (k + 1) - r.P (k + 1 + 1)) + (r.P (k + 1 + 1) - s.P (k + 1))) * (s.G k)ᵀ := by
          rw [hPs]; expand; abel
        rw [e4]
        exact psd_conj (vle.add ih'.2) _
  intro k hk
  have := main (T - 1 - k) (by omega)
  have e : T - 1 - (T - 1 - k) = k := by omega
  rwa [e] at this

/-- The run is determined by the initial estimate, the model and the observations up to each step (C16: prefixes and
later data; also the tool for C10). -/
theorem determined {M' : Sys n m} {z' : ℕ → Vec m} {T' : ℕ} {r' : Run n m} (hr : IsFilter M z T r)
    (hr' : IsFilter M' z' T' r') (t : ℕ) (ht : t ≤ T) (ht' : t ≤ T') (hx : r.x 0 = r'.x 0) (hP : r.P 0 = r'.P 0)
    (hF : ∀ k < t, M.F k = M'.F k) (hJF : ∀ k < t, M.JF k = M'.JF k) (hh : ∀ k < t, M.h k = M'.h k)
    (hJH : ∀ k < t, M.JH k = M'.JH k) (hQ : ∀ k < t, M.Q k = M'.Q k) (hR : ∀ k < t, M.R k = M'.R k)
    (hz : ∀ k < t, z k = z' k) :
    ∀ k ≤ t, r.x k = r'.x k ∧ r.P k = r'.P k ∧
      ∀ j < k, r.xp j = r'.xp j ∧ r.Pp j = r'.Pp j ∧ r.S j = r'.S j ∧ r.K j = r'.K j := by
  intro k
  induction k with
  | zero => intro _; exact ⟨hx, hP, fun j hj => absurd hj (Nat.not_lt_zero _)⟩
  | succ k ih =>
    intro hk
    have hk' : k < t := hk
    obtain ⟨ex, eP, old⟩ := ih hk'.le
    have a : k < T := by omega
    have b : k < T' := by omega
    have exp : r.xp k = r'.xp k := by rw [hr.xp k a, hr'.xp k b, hF k hk', ex]
    have ePp : r.Pp k = r'.Pp k := by rw [hr.Pp k a, hr'.Pp k b, hJF k hk', hQ k hk', ex, eP]
    have eS : r.S k = r'.S k := by rw [hr.S k a, hr'.S k b, hJH k hk', hR k hk', exp, ePp]
    have eK : r.K k = r'.K k := by rw [hr.K k a, hr'.K k b, hJH k hk', exp, ePp, eS]
    refine ⟨?_, ?_, fun j hj => ?_⟩
    · rw [hr.x k a, hr'.x k b, exp, eK, hz k hk', hh k hk']
    · rw [hr.P k a, hr'.P k b, exp, eK, hJH k hk', ePp]
    · rcases Nat.lt_succ_iff_lt_or_eq.1 hj with h | h
      · exact old j h
      · exact h ▸ ⟨exp, ePp, eS, eK⟩

/-- C16: a series may be split; the rest of the run is the run started from the last estimate. -/
theorem continued (hr : IsFilter M z T r) (t : ℕ) (ht : t ≤ T) :
    IsFilter ⟨fun k => M.F (k + t), fun k => M.JF (k + t), fun k => M.h (k + t), fun k => M.JH (k + t),
      fun k => M.Q (k + t), fun k => M.R (k + t)⟩ (fun k => z (k + t)) (T - t)
      ⟨fun k => r.x (k + t), fun k => r.P (k + t), fun k => r.xp (k + t), fun k => r.Pp (k + t), fun k => r.S (k + t),
        fun k => r.K (k + t)⟩ where
  xp k hk := hr.xp (k + t) (by omega)
  Pp k hk := hr.Pp (k + t) (by omega)
  S k hk := hr.S (k + t) (by omega)
  K k hk := hr.K (k + t) (by omega)
  x k hk := by have := hr.x (k + t) (by omega); simpa [Nat.add_right_comm] using this
  P k hk := by have := hr.P (k + t) (by omega); simpa [Nat.add_right_comm] using this

/-- Smoothing is determined by the run and the transition Jacobians. -/
theorem smooth_determined {M' : Sys n m} {r' : Run n m} {s s' : Smooth n} (hs : IsSmoother M T r s)
    (hs' : IsSmoother M' T r' s') (hJF : ∀ k < T, M.JF k (r.x k) = M'.JF k (r'.x k)) (hP : ∀ k ≤ T, r.P k = r'.P k)
    (hPp : ∀ k < T, r.Pp k = r'.Pp k) :
    ∀ k < T, s.P k = s'.P k ∧ (((∀ j ≤ T, r.x j = r'.x j) ∧ ∀ j < T, r.xp j = r'.xp j) → s.x k = s'.x k) := by
  have main : ∀ j, j < T → s.P (T - 1 - j) = s'.P (T - 1 - j) ∧
      (((∀ j ≤ T, r.x j = r'.x j) ∧ ∀ j < T, r.xp j = r'.xp j) → s.x (T - 1 - j) = s'.x (T - 1 - j)) := by
    intro j
    induction j with
    | zero =>
      intro hj
      simp only [Nat.sub_zero, hs.lastP, hs'.lastP, hs.lastx, hs'.lastx]
      exact ⟨hP T le_rfl, fun h => h.1 T le_rfl⟩
    | succ j ih =>
      intro hj
      set k := T - 1 - (j + 1) with hkd
      have hk : k < T - 1 := by omega
      have e : T - 1 - j = k + 1 := by omega
      have ih' := ih (by omega)
      rw [e] at ih'
      have eG : s.G k = s'.G k := by
        rw [hs.G k hk, hs'.G k hk, hP _ (by omega), hPp _ (by omega), hJF _ (by omega)]
      refine ⟨?_, fun h => ?_⟩
      · rw [hs.P k hk, hs'.P k hk, eG, ih'.1, hP _ (by omega), hPp _ (by omega)]
      · rw [hs.x k hk, hs'.x k hk, eG, ih'.2 h, h.1 _ (by omega), h.2 _ (by omega)]
  intro k hk
  have := main (T - 1 - k) (by omega)
  have e : T - 1 - (T - 1 - k) = k := by omega
  rwa [e] at this

end runs

/-! ### Standard filter: covariances and gains do not depend on the data (C17) -/

theorem data_independent {A : ℕ → Mat n n} {c c' : ℕ → Vec n} {H : ℕ → Mat m n} {Q : ℕ → Mat n n} {R : ℕ → Mat m m}
    {z z' : ℕ → Vec m} {T : ℕ} {r r' : Run n m} (hr : IsFilter (linSys A c H Q R) z T r)
    (hr' : IsFilter (linSys A c' H Q R) z' T r') (hP : r.P 0 = r'.P 0) :
    ∀ k ≤ T, r.P k = r'.P k ∧ ∀ j < k, r.Pp j = r'.Pp j ∧ r.S j = r'.S j ∧ r.K j = r'.K j := by
  intro k
  induction k with
  | zero => intro _; exact ⟨hP, fun j hj => absurd hj (Nat.not_lt_zero _)⟩
  | succ k ih =>
    intro hk
    have hk' : k < T := hk
    obtain ⟨eP, old⟩ := ih hk'.le
    have ePp : r.Pp k = r'.Pp k := by
      rw [hr.Pp k hk', hr'.Pp k hk']; simp only [linSys, eP]
    have eS : r.S k = r'.S k := by
      rw [hr.S k hk', hr'.S k hk']; simp only [linSys, ePp]
    have eK : r.K k = r'.K k := by
      rw [hr.K k hk', hr'.K k hk']; simp only [linSys, ePp, eS]
    refine ⟨?_, fun j hj => ?_⟩
    · rw [hr.P k hk', hr'.P k hk']; simp only [linSys, ePp, eK]
    · rcases Nat.lt_succ_iff_lt_or_eq.1 hj with h | h
      · exact old j h
      · exact h ▸ ⟨ePp, eS, eK⟩

theorem data_independent_smooth {A : ℕ → Mat n n} {c c' : ℕ → Vec n} {H : ℕ → Mat m n} {Q : ℕ → Mat n n}
    {R : ℕ → Mat m m} {z z' : ℕ → Vec m} {T : ℕ} {r r' : Run n m} {s s' : Smooth n}
    (hr : IsFilter (linSys A c H Q R) z T r) (hr' : IsFilter (linSys A c' H Q R) z' T r') (hP : r.P 0 = r'.P 0)
    (hs : IsSmoother (linSys A c H Q R) T r s) (hs' : IsSmoother (linSys A c' H Q R) T r' s') :
    ∀ k < T, s.P k = s'.P k := by
  have h := data_independent hr hr' hP
  exact fun k hk => (smooth_determined hs hs' (fun _ _ => rfl) (fun k hk => (h k hk).1)
    (fun k hk => ((h (k + 1) hk).2 k (Nat.lt_succ_self k)).1) k hk).1

/-! ### The extended filter on a linear model is the standard filter (C10) -/

theorem ekf_linear {U : Type*} {f : Vec n → U → Vec n} {JA : Vec n → U → Mat n n} {h : Vec n → Vec m}
    {JH : Vec n → Mat m n} {u : ℕ → U} {A : ℕ → Mat n n} {c : ℕ → Vec n} {H : Mat m n} {Q : ℕ → Mat n n}
    {R : ℕ → Mat m m} {z : ℕ → Vec m} {T : ℕ} {r r' : Run n m} {s s' : Smooth n}
    (hf : ∀ k < T, ∀ x, f x (u k) = A k * x + c k) (hJA : ∀ k < T, ∀ x, JA x (u k) = A k) (hh : ∀ x, h x = H * x)
    (hJH : ∀ x, JH x = H) (hr : IsFilter (ekfSys f JA h JH u Q R) z T r)
    (hr' : IsFilter (linSys A c (fun _ => H) Q R) z T r') (hx : r.x 0 = r'.x 0) (hP : r.P 0 = r'.P 0)
    (hs : IsSmoother (ekfSys f JA h JH u Q R) T r s) (hs' : IsSmoother (linSys A c (fun _ => H) Q R) T r' s') :
    (∀ k ≤ T, r.x k = r'.x k ∧ r.P k = r'.P k) ∧ ∀ k < T, s.x k = s'.x k ∧ s.P k = s'.P k := by
  have d := determined hr hr' T le_rfl le_rfl hx hP (fun k hk => by funext x; exact hf k hk x)
    (fun k hk => by funext x; exact hJA k hk x) (fun k _ => by funext x; exact hh x) (fun k _ => by funext x; exact hJH x)
    (fun _ _ => rfl) (fun _ _ => rfl) (fun _ _ => rfl)
  refine ⟨fun k hk => ⟨(d k hk).1, (d k hk).2.1⟩, fun k hk => ?_⟩
  have e := smooth_determined hs hs' (fun k hk => hJA k hk _) (fun k hk => (d k hk).2.1)
    (fun k hk => ((d (k + 1) hk).2.2 k (Nat.lt_succ_self k)).2.1) k hk
  exact ⟨e.2 ⟨fun j hj => (d j hj).1, fun j hj => ((d (j + 1) hj).2.2 j (Nat.lt_succ_self j)).1⟩, e.1⟩

end Kalman
