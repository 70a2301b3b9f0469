/- Facts about the map projections that need analysis.  The contracts (contracts/proj.py) use them
   as lemmas on the values the code computes. -/
import Mathlib

namespace Projections
open Real Set

/-- exp of minus the isometric latitude -/
noncomputable def iso (e l : ℝ) : ℝ := cos l / (1 + sin l) * ((1 + e * sin l) / (1 - e * sin l)) ^ (e / 2)

noncomputable def logiso (e s : ℝ) : ℝ := (log (1 - s) - log (1 + s)) / 2 + e / 2 * (log (1 + e * s) - log (1 - e * s))

theorem logiso_anti {e : ℝ} (he : 0 ≤ e) (he1 : e < 1) : StrictAntiOn (logiso e) (Ioo (-1) 1) := by
  apply strictAntiOn_of_deriv_neg (convex_Ioo _ _)
  · intro s hs
    have h1 : 0 < 1 - s := by linarith [hs.2]
    have h2 : 0 < 1 + s := by linarith [hs.1]
    have h3 : 0 < 1 + e * s := by nlinarith [hs.1, hs.2]
    have h4 : 0 < 1 - e * s := by nlinarith [hs.1, hs.2]
    unfold logiso
    apply ContinuousAt.continuousWithinAt
    have := h1.ne'; have := h2.ne'; have := h3.ne'; have := h4.ne'
    fun_prop (disch := assumption)
  · intro s hs
    rw [interior_Ioo] at hs
    have h1 : 0 < 1 - s := by linarith [hs.2]
    have h2 : 0 < 1 + s := by linarith [hs.1]
    have h3 : 0 < 1 + e * s := by nlinarith [hs.1, hs.2]
    have h4 : 0 < 1 - e * s := by nlinarith [hs.1, hs.2]
    have d1 : HasDerivAt (fun s : ℝ => log (1 - s)) (-1 / (1 - s)) s :=
      ((hasDerivAt_id s).const_sub 1).log h1.ne'
    have d2 : HasDerivAt (fun s : ℝ => log (1 + s)) (1 / (1 + s)) s :=
      ((hasDerivAt_id s).const_add 1).log h2.ne'
    have d3 : HasDerivAt (fun s : ℝ => log (1 + e * s)) (e * 1 / (1 + e * s)) s :=
      (((hasDerivAt_id s).const_mul e).const_add 1).log h3.ne'
    have d4 : HasDerivAt (fun s : ℝ => log (1 - e * s)) (-(e * 1) / (1 - e * s)) s :=
      (((hasDerivAt_id s).const_mul e).const_sub 1).log h4.ne'
    have d : HasDerivAt (logiso e) ((-1 / (1 - s) - 1 / (1 + s)) / 2 + e / 2 * (e * 1 / (1 + e * s) - -(e * 1) / (1 - e * s))) s :=
      ((d1.sub d2).div_const 2).add ((d3.sub d4).const_mul (e / 2))
    rw [d.deriv]
    have hs2 : 0 < 1 - s ^ 2 := by nlinarith
    have he2 : 0 < 1 - e ^ 2 * s ^ 2 := by nlinarith [mul_pos h3 h4]
    have : (-1 / (1 - s) - 1 / (1 + s)) / 2 + e / 2 * (e * 1 / (1 + e * s) - -(e * 1) / (1 - e * s))
        = -(1 - e ^ 2) / ((1 - s ^ 2) * (1 - e ^ 2 * s ^ 2)) := by
      have a1 : 1 - s ^ 2 = (1 - s) * (1 + s) := by ring
      have a2 : 1 - e ^ 2 * s ^ 2 = (1 + e * s) * (1 - e * s) := by ring
      have n1 := h1.ne'
      have n2 := h2.ne'
      have n3 := h3.ne'
      have n4 := h4.ne'
      have k1 : -1 / (1 - s) - 1 / (1 + s) = -2 / (1 - s ^ 2) := by
        rw [div_sub_div _ _ n1 n2, a1]
        congr 1
        ring
      have k2 : e * 1 / (1 + e * s) - -(e * 1) / (1 - e * s) = 2 * e / (1 - e ^ 2 * s ^ 2) := by
        rw [div_sub_div _ _ n3 n4, a2]
        congr 1
        ring
      rw [k1, k2, div_div, mul_comm (1 - s ^ 2) 2, ← mul_div_assoc, div_add_div _ _ (by positivity) he2.ne', div_eq_div_iff (by positivity) (by positivity)]
      ring
    rw [this]
    apply div_neg_of_neg_of_pos
    · nlinarith
    · positivity

theorem sin_mem {l : ℝ} (h1 : -(π / 2) < l) (h2 : l < π / 2) : sin l ∈ Ioo (-1 : ℝ) 1 := by
  have hc := cos_pos_of_mem_Ioo ⟨h1, h2⟩
  have := sin_sq_add_cos_sq l
  constructor <;> nlinarith

theorem iso_pos {e l : ℝ} (he : 0 ≤ e) (he1 : e < 1) (h1 : -(π / 2) < l) (h2 : l < π / 2) : 0 < iso e l := by
  obtain ⟨a, b⟩ := sin_mem h1 h2
  have hc := cos_pos_of_mem_Ioo ⟨h1, h2⟩
  have h3 : 0 < 1 + e * sin l := by nlinarith
  have h4 : 0 < 1 - e * sin l := by nlinarith
  have h5 : 0 < 1 + sin l := by linarith
  unfold iso
  positivity

theorem log_iso {e l : ℝ} (he : 0 ≤ e) (he1 : e < 1) (h1 : -(π / 2) < l) (h2 : l < π / 2) :
    log (iso e l) = logiso e (sin l) := by
  obtain ⟨a, b⟩ := sin_mem h1 h2
  have hc := cos_pos_of_mem_Ioo ⟨h1, h2⟩
  have h3 : 0 < 1 + e * sin l := by nlinarith
  have h4 : 0 < 1 - e * sin l := by nlinarith
  have h5 : 0 < 1 + sin l := by linarith
  have h6 : 0 < 1 - sin l := by linarith
  have hl : log (cos l) = (log (1 - sin l) + log (1 + sin l)) / 2 := by
    rw [← log_mul h6.ne' h5.ne']
    have : (1 - sin l) * (1 + sin l) = cos l ^ 2 := by
      have := sin_sq_add_cos_sq l
      nlinarith
    rw [this, log_pow]
    push_cast
    ring
  unfold iso logiso
  rw [log_mul (by positivity) (by positivity), log_div hc.ne' h5.ne', log_rpow (by positivity), log_div h3.ne' h4.ne', hl]
  ring

/-- Two latitudes with the same isometric latitude are the same. -/
theorem iso_injective {e l m : ℝ} (he : 0 ≤ e) (he1 : e < 1) (hl1 : -(π / 2) < l) (hl2 : l < π / 2)
    (hm1 : -(π / 2) < m) (hm2 : m < π / 2) (h : iso e l = iso e m) : l = m := by
  have h' : logiso e (sin l) = logiso e (sin m) := by
    rw [← log_iso he he1 hl1 hl2, ← log_iso he he1 hm1 hm2, h]
  have hs := (logiso_anti he he1).injOn (sin_mem hl1 hl2) (sin_mem hm1 hm2) h'
  exact injOn_sin ⟨hl1.le, hl2.le⟩ ⟨hm1.le, hm2.le⟩ hs

/-- Eckert IV: the left side of the equation for the parameter -/
noncomputable def G (t : ℝ) : ℝ := t + sin t * cos t + 2 * sin t

theorem G_deriv (t : ℝ) : HasDerivAt G (2 * cos t * (1 + cos t)) t := by
  have h := ((hasDerivAt_id t).add ((hasDerivAt_sin t).mul (hasDerivAt_cos t))).add ((hasDerivAt_sin t).const_mul 2)
  have e : 1 + (cos t * cos t + sin t * -sin t) + 2 * cos t = 2 * cos t * (1 + cos t) := by
    have := sin_sq_add_cos_sq t
    nlinarith
  rw [← e]
  exact h

theorem G_cont : Continuous G := by unfold G; fun_prop

theorem G_top : G (π / 2) = 2 + π / 2 := by unfold G; simp; ring

theorem G_odd (t : ℝ) : G (-t) = -G t := by unfold G; simp; ring

theorem G_mono : StrictMonoOn G (Icc (-(π / 2)) (π / 2)) := by
  apply strictMonoOn_of_deriv_pos (convex_Icc _ _) G_cont.continuousOn
  intro t ht
  rw [interior_Icc] at ht
  rw [(G_deriv t).deriv]
  have := cos_pos_of_mem_Ioo ht
  positivity

theorem eckert_range {t : ℝ} (h1 : -(π / 2) < t) (h2 : t < π / 2) : -(2 + π / 2) < G t ∧ G t < 2 + π / 2 := by
  have hp := pi_pos
  have a := G_mono ⟨h1.le, h2.le⟩ ⟨by linarith, le_refl _⟩ h2
  have b := G_mono ⟨le_refl _, by linarith⟩ ⟨h1.le, h2.le⟩ h1
  rw [G_odd, G_top] at b
  rw [G_top] at a
  exact ⟨b, a⟩

theorem eckert_start {l : ℝ} (h1 : 0 ≤ l) (h2 : l < π / 2) : G (l / 2) ≤ (2 + π / 2) * sin l := by
  have hp := pi_gt_three
  set h := l / 2 with hh
  have e : sin l = 2 * sin h * cos h := by rw [← sin_two_mul]; congr 1; rw [hh]; ring
  have h0 : 0 ≤ h := by rw [hh]; linarith
  have h4 : h ≤ π / 4 := by rw [hh]; linarith
  have hs : 0 ≤ sin h := sin_nonneg_of_nonneg_of_le_pi h0 (by linarith)
  have hc : √2 / 2 ≤ cos h := by
    rw [← cos_pi_div_four]
    exact cos_le_cos_of_nonneg_of_le_pi h0 (by linarith) h4
  have h2' : (1.4 : ℝ) ≤ √2 := by
    apply le_sqrt_of_sq_le
    norm_num
  have hc7 : 0.7 ≤ cos h := by linarith
  have ht : h * cos h ≤ sin h := by
    have := le_tan h0 (by linarith : h < π / 2)
    rw [tan_eq_sin_div_cos, le_div_iff₀ (by linarith)] at this
    exact this
  have key : 1 + cos h * cos h + 2 * cos h ≤ (2 + π / 2) * (2 * cos h) * cos h := by
    have q : 0 ≤ (π - 3) * (cos h * cos h) := by
      have : 0 ≤ π - 3 := by linarith
      positivity
    nlinarith [mul_nonneg (sub_nonneg.2 hc7) (sub_nonneg.2 hc7)]
  have : G h * cos h ≤ ((2 + π / 2) * (2 * sin h * cos h)) * cos h := by
    unfold G
    nlinarith [mul_le_mul_of_nonneg_left key hs]
  rw [e]
  exact le_of_mul_le_mul_right this (by linarith)

/-- A Newton step from the left of the root stays left of the root and below a quarter turn. -/
theorem eckert_step {t S : ℝ} (h1 : 0 ≤ t) (h2 : t < π / 2) (hS : S < 1) (hG : G t ≤ (2 + π / 2) * S) :
    let u := t - (G t - (2 + π / 2) * S) / (2 * cos t * (1 + cos t))
    t ≤ u ∧ u < π / 2 ∧ G u ≤ (2 + π / 2) * S := by
  intro u
  have hp := pi_pos
  have hc : 0 < cos t := cos_pos_of_mem_Ioo ⟨by linarith, h2⟩
  set D := 2 * cos t * (1 + cos t) with hD
  have hDp : 0 < D := by positivity
  have hu : D * (u - t) = (2 + π / 2) * S - G t := by
    simp only [u]
    field_simp
    ring
  have htu : t ≤ u := by nlinarith
  -- the tangent lies above
  have tang : ∀ x ∈ Icc t (π / 2), G x ≤ G t + D * (x - t) := by
    have m : MonotoneOn (fun x => G t + D * (x - t) - G x) (Icc t (π / 2)) := by
      apply monotoneOn_of_deriv_nonneg (convex_Icc _ _)
      · have := G_cont
        fun_prop
      · intro x _
        exact ((((((hasDerivAt_id x).sub_const t).const_mul D).const_add (G t)).sub (G_deriv x))).differentiableAt.differentiableWithinAt
      · intro x hx
        rw [interior_Icc] at hx
        have d : HasDerivAt (fun x => G t + D * (x - t) - G x) (D * 1 - 2 * cos x * (1 + cos x)) x :=
          (((((hasDerivAt_id x).sub_const t).const_mul D).const_add (G t)).sub (G_deriv x))
        rw [d.deriv]
        have h3 : cos x ≤ cos t := cos_le_cos_of_nonneg_of_le_pi h1 (by linarith [hx.2]) hx.1.le
        have h4 : 0 < cos x := cos_pos_of_mem_Ioo ⟨by linarith [hx.1], hx.2⟩
        rw [hD]
        nlinarith
    intro x hx
    have := m ⟨le_refl _, h2.le⟩ hx hx.1
    simp only [sub_self, mul_zero, add_zero] at this
    linarith
  have top := tang (π / 2) ⟨h2.le, le_refl _⟩
  rw [G_top] at top
  have hlt : u < π / 2 := by
    have : D * (u - t) < D * (π / 2 - t) := by
      rw [hu]
      nlinarith
    have := lt_of_mul_lt_mul_left this hDp.le
    linarith
  refine ⟨htu, hlt, ?_⟩
  have := tang u ⟨htu, hlt.le⟩
  linarith

end Projections
