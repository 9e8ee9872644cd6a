import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Tactic

set_option linter.all false

open Real

/-- every point of the unit circle has an angle in [0, 2π) -/
theorem angle_exists (x y : ℝ) (h : x ^ 2 + y ^ 2 = 1) :
    ∃ t, 0 ≤ t ∧ t < 2 * π ∧ cos t = x ∧ sin t = y := by
  have hx1 : x ≤ 1 := by nlinarith [sq_nonneg y]
  have hx0 : -1 ≤ x := by nlinarith [sq_nonneg y]
  have hs : sqrt (1 - x ^ 2) = |y| := by
    rw [show 1 - x ^ 2 = y ^ 2 by linarith, sqrt_sq_eq_abs]
  have hpi := pi_pos
  by_cases hy : 0 ≤ y
  · refine ⟨arccos x, arccos_nonneg x, ?_, cos_arccos hx0 hx1, ?_⟩
    · linarith [arccos_le_pi x]
    · rw [sin_arccos, hs, abs_of_nonneg hy]
  · rw [not_le] at hy
    have hlt : x < 1 := by
      rcases lt_or_eq_of_le hx1 with h1 | h1
      · exact h1
      · exfalso; rw [h1] at h; nlinarith
    have hpos : 0 < arccos x := arccos_pos.mpr hlt
    refine ⟨2 * π - arccos x, ?_, by linarith, ?_, ?_⟩
    · linarith [arccos_le_pi x]
    · rw [cos_two_pi_sub, cos_arccos hx0 hx1]
    · rw [sin_two_pi_sub, sin_arccos, hs, abs_of_neg hy]; ring

/-- the columns of a rotation matrix are orthonormal when its rows are -/
theorem columns (p1 p2 p3 q1 q2 q3 w1 w2 w3 : ℝ)
    (hP : p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1) (hQ : q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1)
    (hPQ : p1 * q1 + p2 * q2 + p3 * q3 = 0)
    (h1 : w1 = p2 * q3 - p3 * q2) (h2 : w2 = p3 * q1 - p1 * q3) (h3 : w3 = p1 * q2 - p2 * q1) :
    p3 ^ 2 + q3 ^ 2 + w3 ^ 2 = 1 ∧ p1 * p3 + q1 * q3 + w1 * w3 = 0 ∧ p2 * p3 + q2 * q3 + w2 * w3 = 0 ∧
    w1 ^ 2 + w2 ^ 2 + w3 ^ 2 = 1 := by
  have hW : w1 ^ 2 + w2 ^ 2 + w3 ^ 2 = 1 := by
    have e : w1 ^ 2 + w2 ^ 2 + w3 ^ 2 =
        (p1 ^ 2 + p2 ^ 2 + p3 ^ 2) * (q1 ^ 2 + q2 ^ 2 + q3 ^ 2) - (p1 * q1 + p2 * q2 + p3 * q3) ^ 2 := by
      rw [h1, h2, h3]; ring
    rw [e, hP, hQ, hPQ]; ring
  have hPW : p1 * w1 + p2 * w2 + p3 * w3 = 0 := by rw [h1, h2, h3]; ring
  have hQW : q1 * w1 + q2 * w2 + q3 * w3 = 0 := by rw [h1, h2, h3]; ring
  let M : Matrix (Fin 3) (Fin 3) ℝ := !![p1, p2, p3; q1, q2, q3; w1, w2, w3]
  have hM : M * M.transpose = 1 := by
    ext i j
    fin_cases i <;> fin_cases j <;>
      simp [M, Matrix.mul_apply, Fin.sum_univ_three] <;> linarith
  have hM' : M.transpose * M = 1 := mul_eq_one_comm.mp hM
  have c33 := congrFun (congrFun hM' 2) 2
  have c13 := congrFun (congrFun hM' 0) 2
  have c23 := congrFun (congrFun hM' 1) 2
  simp [M, Matrix.mul_apply, Fin.sum_univ_three] at c33 c13 c23
  refine ⟨by linarith, by linarith, by linarith, hW⟩

/-- every right-handed orthonormal frame whose third axis is not the z axis is given by node, inclination in (0, π)
and argument -/
theorem euler_exists (p1 p2 p3 q1 q2 q3 w1 w2 w3 : ℝ)
    (hP : p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1) (hQ : q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1)
    (hPQ : p1 * q1 + p2 * q2 + p3 * q3 = 0)
    (h1 : w1 = p2 * q3 - p3 * q2) (h2 : w2 = p3 * q1 - p1 * q3) (h3 : w3 = p1 * q2 - p2 * q1)
    (hw : 0 < w1 ^ 2 + w2 ^ 2) :
    ∃ Om inc u, 0 < inc ∧ inc < π ∧
      p1 = cos Om * cos u - sin Om * cos inc * sin u ∧
      p2 = sin Om * cos u + cos Om * cos inc * sin u ∧
      p3 = sin inc * sin u ∧
      q1 = - sin Om * cos inc * cos u - cos Om * sin u ∧
      q2 = cos Om * cos inc * cos u - sin Om * sin u ∧
      q3 = sin inc * cos u ∧
      w1 = sin Om * sin inc ∧ w2 = - cos Om * sin inc ∧ w3 = cos inc := by
  obtain ⟨c33, c13, c23, hW⟩ := columns p1 p2 p3 q1 q2 q3 w1 w2 w3 hP hQ hPQ h1 h2 h3
  set s := sqrt (w1 ^ 2 + w2 ^ 2) with hs
  have s0 : 0 < s := sqrt_pos.mpr hw
  have s2 : s ^ 2 = w1 ^ 2 + w2 ^ 2 := sq_sqrt hw.le
  have s2' : s ^ 2 = p3 ^ 2 + q3 ^ 2 := by rw [s2]; linarith
  have hlo : -1 < w3 := by nlinarith
  have hhi : w3 < 1 := by nlinarith
  have hsin : sin (arccos w3) = s := by
    rw [sin_arccos, show 1 - w3 ^ 2 = w1 ^ 2 + w2 ^ 2 by linarith]
  have hcos : cos (arccos w3) = w3 := cos_arccos hlo.le hhi.le
  obtain ⟨Om, _, _, hO1, hO2⟩ := angle_exists (-w2 / s) (w1 / s) (by field_simp; linarith)
  obtain ⟨u, _, _, hu1, hu2⟩ := angle_exists (q3 / s) (p3 / s) (by field_simp; linarith)
  refine ⟨Om, arccos w3, u, arccos_pos.mpr hhi, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · have := arccos_lt_pi.mpr hlo
    exact this
  · rw [hcos, hO1, hO2, hu1, hu2]; field_simp; linear_combination p1 * s2' + q3 * h2 + p3 * c13
  · rw [hcos, hO1, hO2, hu1, hu2]; field_simp; linear_combination p2 * s2' - q3 * h1 + p3 * c23
  · rw [hsin, hu2]; field_simp
  · rw [hcos, hO1, hO2, hu1, hu2]; field_simp; linear_combination q1 * s2' + q3 * c13 - p3 * h2
  · rw [hcos, hO1, hO2, hu1, hu2]; field_simp; linear_combination q2 * s2' + q3 * c23 + p3 * h1
  · rw [hsin, hu1]; field_simp
  · rw [hsin, hO2]; field_simp
  · rw [hsin, hO1]; field_simp
  · rw [hcos]

/-- … and when the third axis is the z axis, up or down, by one angle -/
theorem sq_eq_one_iff_eq_or_neg {x : ℝ} (h : x ^ 2 = 1) : x = 1 ∨ x = -1 := by
  have : (x - 1) * (x + 1) = 0 := by linarith [h, show (x - 1) * (x + 1) = x ^ 2 - 1 by ring]
  rcases mul_eq_zero.mp this with h | h
  · left; linarith
  · right; linarith

theorem flat_exists (p1 p2 p3 q1 q2 q3 w1 w2 w3 : ℝ)
    (hP : p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1) (hQ : q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1)
    (hPQ : p1 * q1 + p2 * q2 + p3 * q3 = 0)
    (h1 : w1 = p2 * q3 - p3 * q2) (h2 : w2 = p3 * q1 - p1 * q3) (h3 : w3 = p1 * q2 - p2 * q1)
    (hw : ¬ 0 < w1 ^ 2 + w2 ^ 2) :
    w1 = 0 ∧ w2 = 0 ∧ p3 = 0 ∧ q3 = 0 ∧
      ((w3 = 1 ∧ ∃ u, p1 = cos u ∧ p2 = sin u ∧ q1 = - sin u ∧ q2 = cos u) ∨
       (w3 = -1 ∧ ∃ u, p1 = cos u ∧ p2 = - sin u ∧ q1 = - sin u ∧ q2 = - cos u)) := by
  obtain ⟨c33, c13, c23, hW⟩ := columns p1 p2 p3 q1 q2 q3 w1 w2 w3 hP hQ hPQ h1 h2 h3
  have w1z : w1 = 0 := by nlinarith [sq_nonneg w1, sq_nonneg w2]
  have w2z : w2 = 0 := by nlinarith [sq_nonneg w1, sq_nonneg w2]
  have w3s : w3 ^ 2 = 1 := by rw [w1z, w2z] at hW; linarith
  have p3z : p3 = 0 := by nlinarith [sq_nonneg p3, sq_nonneg q3]
  have q3z : q3 = 0 := by nlinarith [sq_nonneg p3, sq_nonneg q3]
  refine ⟨w1z, w2z, p3z, q3z, ?_⟩
  have hP' : p1 ^ 2 + p2 ^ 2 = 1 := by rw [p3z] at hP; linarith
  have hPQ' : p1 * q1 + p2 * q2 = 0 := by rw [p3z, q3z] at hPQ; linarith
  -- q = w3 * (-p2, p1)
  have hq1 : q1 = - (w3 * p2) := by
    rw [h3]; linear_combination (-q1) * hP' + p1 * hPQ'
  have hq2 : q2 = w3 * p1 := by
    rw [h3]; linear_combination (-q2) * hP' + p2 * hPQ'
  rcases (sq_eq_one_iff_eq_or_neg w3s) with h | h
  · left
    obtain ⟨u, _, _, hc, hs⟩ := angle_exists p1 p2 hP'
    exact ⟨h, u, hc.symm, hs.symm, by rw [hq1, h, hs]; ring, by rw [hq2, h, hc]; ring⟩
  · right
    obtain ⟨u, _, _, hc, hs⟩ := angle_exists p1 (-p2) (by linarith [hP', neg_sq p2])
    exact ⟨h, u, hc.symm, by rw [hs]; ring, by rw [hq1, h, hs]; ring, by rw [hq2, h, hc]; ring⟩

/-- position and velocity with a nonzero cross product give the orbit frame: radial axis p, transverse axis q -/
theorem frame_exists (x y z vx vy vz : ℝ)
    (hh : 0 < (y * vz - z * vy) ^ 2 + (z * vx - x * vz) ^ 2 + (x * vy - y * vx) ^ 2) :
    ∃ R vr vt p1 p2 p3 q1 q2 q3, 0 < R ∧ 0 < vt ∧ R ^ 2 = x ^ 2 + y ^ 2 + z ^ 2 ∧
      vr ^ 2 + vt ^ 2 = vx ^ 2 + vy ^ 2 + vz ^ 2 ∧
      p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1 ∧ q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1 ∧ p1 * q1 + p2 * q2 + p3 * q3 = 0 ∧
      x = R * p1 ∧ y = R * p2 ∧ z = R * p3 ∧
      vx = vr * p1 + vt * q1 ∧ vy = vr * p2 + vt * q2 ∧ vz = vr * p3 + vt * q3 := by
  obtain ⟨d, hd⟩ : ∃ d, d = x * vx + y * vy + z * vz := ⟨_, rfl⟩
  obtain ⟨V, hV⟩ : ∃ V, V = vx ^ 2 + vy ^ 2 + vz ^ 2 := ⟨_, rfl⟩
  obtain ⟨N, hN⟩ : ∃ N, N = x ^ 2 + y ^ 2 + z ^ 2 := ⟨_, rfl⟩
  have hL : (y * vz - z * vy) ^ 2 + (z * vx - x * vz) ^ 2 + (x * vy - y * vx) ^ 2 = N * V - d ^ 2 := by
    rw [hd, hV, hN]; ring
  rw [hL] at hh
  have V0 : 0 ≤ V := by rw [hV]; positivity
  have N0 : 0 < N := by
    have : 0 ≤ N := by rw [hN]; positivity
    rcases lt_or_eq_of_le this with h | h
    · exact h
    · exfalso; rw [← h] at hh; nlinarith [sq_nonneg d]
  obtain ⟨R, R0, hR⟩ : ∃ R, 0 < R ∧ R ^ 2 = N := ⟨sqrt N, sqrt_pos.mpr N0, sq_sqrt N0.le⟩
  obtain ⟨H, H0, hH⟩ : ∃ H, 0 < H ∧ H ^ 2 = N * V - d ^ 2 := ⟨sqrt _, sqrt_pos.mpr hh, sq_sqrt hh.le⟩
  rw [← hR] at hH
  rw [← hR] at hN
  refine ⟨R, d / R, H / R, x / R, y / R, z / R, (vx * R ^ 2 - x * d) / (H * R), (vy * R ^ 2 - y * d) / (H * R),
    (vz * R ^ 2 - z * d) / (H * R), R0, by positivity, hN, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · rw [← hV]; field_simp; linarith
  · field_simp; linarith
  · field_simp
    have : (vx * R ^ 2 - x * d) ^ 2 + (vy * R ^ 2 - y * d) ^ 2 + (vz * R ^ 2 - z * d) ^ 2
        = R ^ 4 * V - 2 * R ^ 2 * d * (x * vx + y * vy + z * vz) + d ^ 2 * (x ^ 2 + y ^ 2 + z ^ 2) := by rw [hV]; ring
    have t2 : (vx * R ^ 2 - x * d) ^ 2 + (vy * R ^ 2 - y * d) ^ 2 + (vz * R ^ 2 - z * d) ^ 2 = R ^ 2 * H ^ 2 := by
      rw [this, ← hd, ← hN]; linear_combination (-R ^ 2) * hH
    linear_combination t2
  · have : x / R * ((vx * R ^ 2 - x * d) / (H * R)) + y / R * ((vy * R ^ 2 - y * d) / (H * R))
        + z / R * ((vz * R ^ 2 - z * d) / (H * R))
        = (R ^ 2 * (x * vx + y * vy + z * vz) - d * (x ^ 2 + y ^ 2 + z ^ 2)) / (H * R ^ 2) := by field_simp; ring
    rw [this, ← hd, ← hN]; ring
  · field_simp
  · field_simp
  · field_simp
  · field_simp; ring
  · field_simp; ring
  · field_simp; ring

/-- in its own plane, a bound state (radius R, radial and transverse speed vr, vt) is the point at some eccentric anomaly E
of some ellipse (a, e); C and S are cosine and sine of the true anomaly -/
theorem orbit_exists (R vr vt mu : ℝ) (hR : 0 < R) (hvt : 0 < vt) (hmu : 0 < mu)
    (hb : (vr ^ 2 + vt ^ 2) * R < 2 * mu) :
    ∃ a e E C S, 0 < a ∧ 0 ≤ e ∧ e < 1 ∧ 0 ≤ E ∧ E < 2 * π ∧ C ^ 2 + S ^ 2 = 1 ∧
      a * (1 - e * cos E) = R ∧
      a * (cos E - e) = R * C ∧ a * sqrt (1 - e * e) * sin E = R * S ∧
      -(a * (sqrt (mu / a) / (a * (1 - e * cos E))) * sin E) = vr * C - vt * S ∧
      a * sqrt (1 - e * e) * (sqrt (mu / a) / (a * (1 - e * cos E))) * cos E = vr * S + vt * C := by
  obtain ⟨b, hbd⟩ : ∃ b, b = 2 * mu - (vr ^ 2 + vt ^ 2) * R := ⟨_, rfl⟩
  have b0 : 0 < b := by rw [hbd]; linarith
  obtain ⟨a, ha⟩ : ∃ a, a = R * mu / b := ⟨_, rfl⟩
  have a0 : 0 < a := by rw [ha]; positivity
  have hab : a * b = R * mu := by rw [ha]; field_simp
  obtain ⟨k, k0, hk⟩ : ∃ k, 0 < k ∧ k ^ 2 = mu * a := ⟨sqrt (mu * a), by positivity, sq_sqrt (by positivity)⟩
  obtain ⟨c, hc⟩ : ∃ c, c = 1 - R / a := ⟨_, rfl⟩
  obtain ⟨s, hs⟩ : ∃ s, s = R * vr / k := ⟨_, rfl⟩
  obtain ⟨g, hg⟩ : ∃ g, g = R * vt / k := ⟨_, rfl⟩
  have g0 : 0 < g := by rw [hg]; positivity
  have hR' : R = a * (1 - c) := by rw [hc]; field_simp; ring
  have hone : c ^ 2 + s ^ 2 + g ^ 2 = 1 := by
    have e1 : s ^ 2 + g ^ 2 = R ^ 2 * (vr ^ 2 + vt ^ 2) / (mu * a) := by
      rw [hs, hg, ← hk]; field_simp
    have : c ^ 2 + (s ^ 2 + g ^ 2) = 1 := by
      rw [e1, hc]; field_simp
      have hv : (vr ^ 2 + vt ^ 2) * R = 2 * mu - b := by rw [hbd]; ring
      linear_combination a * R * hv - R * hab
    linarith
  obtain ⟨e, e0, he⟩ : ∃ e, 0 ≤ e ∧ e ^ 2 = c ^ 2 + s ^ 2 := ⟨sqrt (c ^ 2 + s ^ 2), sqrt_nonneg _, sq_sqrt (by positivity)⟩
  have e1 : e < 1 := by nlinarith
  have hg2 : sqrt (1 - e * e) = g := by
    rw [show 1 - e * e = g ^ 2 by nlinarith, sqrt_sq g0.le]
  obtain ⟨E, E0, E1, hcE, hsE⟩ : ∃ E, 0 ≤ E ∧ E < 2 * π ∧ e * cos E = c ∧ e * sin E = s := by
    rcases lt_or_eq_of_le e0 with h | h
    · obtain ⟨E, h0, h1, hC, hS⟩ := angle_exists (c / e) (s / e) (by field_simp; linarith)
      exact ⟨E, h0, h1, by rw [hC]; field_simp, by rw [hS]; field_simp⟩
    · have hz : c ^ 2 + s ^ 2 = 0 := by rw [← he, ← h]; ring
      have cz : c = 0 := by nlinarith [sq_nonneg c, sq_nonneg s]
      have sz : s = 0 := by nlinarith [sq_nonneg c, sq_nonneg s]
      exact ⟨0, le_refl 0, by positivity, by rw [← h, cz]; ring, by rw [← h, sz]; ring⟩
  have hcs := cos_sq_add_sin_sq E
  have hu : 0 < 1 - c := by
    have : 0 < R / a := by positivity
    rw [hc]; linarith
  have hw : sqrt (mu / a) = k / a := by
    rw [show mu / a = (k / a) ^ 2 by rw [div_pow, hk]; field_simp, sqrt_sq (by positivity)]
  have hvr : vr = k * s / R := by rw [hs]; field_simp
  have hvt' : vt = k * g / R := by rw [hg]; field_simp
  have heg : e ^ 2 + g ^ 2 = 1 := by linarith
  refine ⟨a, e, E, (cos E - e) / (1 - c), g * sin E / (1 - c), a0, e0, e1, E0, E1, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · have : (1 - c) ^ 2 = (cos E - e) ^ 2 + (g * sin E) ^ 2 := by
      rw [← hcE]
      linear_combination (-(sin E) ^ 2) * heg + (e ^ 2 - 1) * hcs
    rw [div_pow, div_pow, ← add_div, ← this]; field_simp
  · rw [hcE]; linarith
  · rw [hR']; field_simp
  · rw [hg2, hR']; field_simp
  · rw [hw, hcE, hvr, hvt', hR', ← hsE, ← hcE]
    rw [← hcE] at hu
    field_simp
    linear_combination (sin E) * heg
  · rw [hw, hg2, hcE, hvr, hvt', hR', ← hsE, ← hcE]
    rw [← hcE] at hu
    field_simp
    linear_combination (-e) * hcs

/-- every right-handed orthonormal frame has Euler angles -/
theorem euler_full (p1 p2 p3 q1 q2 q3 w1 w2 w3 : ℝ)
    (hP : p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1) (hQ : q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1)
    (hPQ : p1 * q1 + p2 * q2 + p3 * q3 = 0)
    (h1 : w1 = p2 * q3 - p3 * q2) (h2 : w2 = p3 * q1 - p1 * q3) (h3 : w3 = p1 * q2 - p2 * q1) :
    ∃ Om inc u,
      p1 = cos Om * cos u - sin Om * cos inc * sin u ∧
      p2 = sin Om * cos u + cos Om * cos inc * sin u ∧
      p3 = sin inc * sin u ∧
      q1 = - sin Om * cos inc * cos u - cos Om * sin u ∧
      q2 = cos Om * cos inc * cos u - sin Om * sin u ∧
      q3 = sin inc * cos u ∧
      w1 = sin Om * sin inc ∧ w2 = - cos Om * sin inc ∧ w3 = cos inc := by
  by_cases hw : 0 < w1 ^ 2 + w2 ^ 2
  · obtain ⟨Om, inc, u, _, _, h⟩ := euler_exists p1 p2 p3 q1 q2 q3 w1 w2 w3 hP hQ hPQ h1 h2 h3 hw
    exact ⟨Om, inc, u, h⟩
  · obtain ⟨z1, z2, z3, z4, h⟩ := flat_exists p1 p2 p3 q1 q2 q3 w1 w2 w3 hP hQ hPQ h1 h2 h3 hw
    rcases h with ⟨hw3, u, a1, a2, a3, a4⟩ | ⟨hw3, u, a1, a2, a3, a4⟩
    · exact ⟨0, 0, u, by simp [a1], by simp [a2], by simp [z3], by simp [a3], by simp [a4], by simp [z4], by simp [z1], by simp [z2], by simp [hw3]⟩
    · exact ⟨0, π, u, by simp [a1], by simp [a2], by simp [z3], by simp [a3], by simp [a4], by simp [z4], by simp [z1], by simp [z2], by simp [hw3]⟩

/-- the point at eccentric anomaly E: components along the perifocal axes -/
noncomputable def xP (a e E : ℝ) : ℝ := a * (cos E - e)
noncomputable def xQ (a e E : ℝ) : ℝ := a * sqrt (1 - e * e) * sin E
noncomputable def vP (mu a e E : ℝ) : ℝ := -(a * (sqrt (mu / a) / (a * (1 - e * cos E))) * sin E)
noncomputable def vQ (mu a e E : ℝ) : ℝ := a * sqrt (1 - e * e) * (sqrt (mu / a) / (a * (1 - e * cos E))) * cos E

/-- every bound, turning state lies on an ellipse with orthonormal perifocal axes -/
theorem perifocal (x y z vx vy vz mu : ℝ) (hmu : 0 < mu)
    (hh : 0 < (y * vz - z * vy) ^ 2 + (z * vx - x * vz) ^ 2 + (x * vy - y * vx) ^ 2)
    (hb : (vx ^ 2 + vy ^ 2 + vz ^ 2) * sqrt (x ^ 2 + y ^ 2 + z ^ 2) < 2 * mu) :
    ∃ a e E p1 p2 p3 q1 q2 q3, 0 < a ∧ 0 ≤ e ∧ e < 1 ∧ 0 ≤ E ∧ E < 2 * π ∧
      p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1 ∧ q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1 ∧ p1 * q1 + p2 * q2 + p3 * q3 = 0 ∧
      x = xP a e E * p1 + xQ a e E * q1 ∧ y = xP a e E * p2 + xQ a e E * q2 ∧ z = xP a e E * p3 + xQ a e E * q3 ∧
      vx = vP mu a e E * p1 + vQ mu a e E * q1 ∧ vy = vP mu a e E * p2 + vQ mu a e E * q2 ∧
      vz = vP mu a e E * p3 + vQ mu a e E * q3 := by
  obtain ⟨R, vr, vt, p1, p2, p3, q1, q2, q3, R0, vt0, hR, hV, hP, hQ, hPQ, e1, e2, e3, e4, e5, e6⟩ :=
    frame_exists x y z vx vy vz hh
  rw [← hV, ← hR, sqrt_sq R0.le] at hb
  obtain ⟨a, e, E, C, S, a0, e0, e1', E0, E1, hCS, _, hC, hS, hvC, hvS⟩ := orbit_exists R vr vt mu R0 vt0 hmu hb
  refine ⟨a, e, E, C * p1 - S * q1, C * p2 - S * q2, C * p3 - S * q3, S * p1 + C * q1, S * p2 + C * q2, S * p3 + C * q3,
    a0, e0, e1', E0, E1, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_, ?_⟩
  · linear_combination C ^ 2 * hP + S ^ 2 * hQ - 2 * C * S * hPQ + hCS
  · linear_combination S ^ 2 * hP + C ^ 2 * hQ + 2 * C * S * hPQ + hCS
  · linear_combination C * S * hP - C * S * hQ + (C ^ 2 - S ^ 2) * hPQ
  all_goals (simp only [xP, xQ, vP, vQ]; first | rw [hC, hS] | rw [hvC, hvS])
  · linear_combination e1 - R * p1 * hCS
  · linear_combination e2 - R * p2 * hCS
  · linear_combination e3 - R * p3 * hCS
  · linear_combination e4 - (vr * p1 + vt * q1) * hCS
  · linear_combination e5 - (vr * p2 + vt * q2) * hCS
  · linear_combination e6 - (vr * p3 + vt * q3) * hCS

/-- two positions that are not collinear with the centre, and the semi-parameter of a conic through both: its eccentricity
and the true anomaly of the first -/
theorem conic_exists (Ra Rb D p : ℝ) (ha : 0 < Ra) (hb : 0 < Rb) (hD : 0 < sin D) :
    ∃ e t, 0 ≤ e ∧ 0 ≤ t ∧ t < 2 * π ∧ Ra * (1 + e * cos t) = p ∧ Rb * (1 + e * cos (t + D)) = p := by
  obtain ⟨c, hc⟩ : ∃ c, c = p / Ra - 1 := ⟨_, rfl⟩
  obtain ⟨s, hs⟩ : ∃ s, s = (c * cos D - (p / Rb - 1)) / sin D := ⟨_, rfl⟩
  obtain ⟨e, e0, he⟩ : ∃ e, 0 ≤ e ∧ e ^ 2 = c ^ 2 + s ^ 2 := ⟨sqrt (c ^ 2 + s ^ 2), sqrt_nonneg _, sq_sqrt (by positivity)⟩
  obtain ⟨t, t0, t1, ht, hu⟩ : ∃ t, 0 ≤ t ∧ t < 2 * π ∧ e * cos t = c ∧ e * sin t = s := by
    rcases lt_or_eq_of_le e0 with h | h
    · obtain ⟨E, h0, h1, hC, hS⟩ := angle_exists (c / e) (s / e) (by field_simp; linarith)
      exact ⟨E, h0, h1, by rw [hC]; field_simp, by rw [hS]; field_simp⟩
    · have hz : c ^ 2 + s ^ 2 = 0 := by rw [← he, ← h]; ring
      have cz : c = 0 := by nlinarith [sq_nonneg c, sq_nonneg s]
      have sz : s = 0 := by nlinarith [sq_nonneg c, sq_nonneg s]
      exact ⟨0, le_refl 0, by positivity, by rw [← h, cz]; ring, by rw [← h, sz]; ring⟩
  refine ⟨e, t, e0, t0, t1, ?_, ?_⟩
  · rw [ht, hc]; field_simp; ring
  · have h1 : e * cos (t + D) = p / Rb - 1 := by
      rw [cos_add]
      have : e * (cos t * cos D - sin t * sin D) = (e * cos t) * cos D - (e * sin t) * sin D := by ring
      rw [this, ht, hu, hs]; field_simp; ring
    rw [h1]; field_simp; ring

/-- components along a right-handed orthonormal frame give the vector back -/
theorem expand (p1 p2 p3 q1 q2 q3 w1 w2 w3 : ℝ)
    (hP : p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1) (hQ : q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1)
    (hPQ : p1 * q1 + p2 * q2 + p3 * q3 = 0)
    (h1 : w1 = p2 * q3 - p3 * q2) (h2 : w2 = p3 * q1 - p1 * q3) (h3 : w3 = p1 * q2 - p2 * q1) (x y z : ℝ) :
    ∃ a b c, x = a * p1 + b * q1 + c * w1 ∧ y = a * p2 + b * q2 + c * w2 ∧ z = a * p3 + b * q3 + c * w3 := by
  have hW := (columns p1 p2 p3 q1 q2 q3 w1 w2 w3 hP hQ hPQ h1 h2 h3).2.2.2
  have hPW : p1 * w1 + p2 * w2 + p3 * w3 = 0 := by rw [h1, h2, h3]; ring
  have hQW : q1 * w1 + q2 * w2 + q3 * w3 = 0 := by rw [h1, h2, h3]; ring
  let M : Matrix (Fin 3) (Fin 3) ℝ := !![p1, p2, p3; q1, q2, q3; w1, w2, w3]
  have hM : M * M.transpose = 1 := by
    ext i j
    fin_cases i <;> fin_cases j <;>
      simp [M, Matrix.mul_apply, Fin.sum_univ_three] <;> linarith
  have hM' : M.transpose * M = 1 := mul_eq_one_comm.mp hM
  have c11 := congrFun (congrFun hM' 0) 0
  have c22 := congrFun (congrFun hM' 1) 1
  have c33 := congrFun (congrFun hM' 2) 2
  have c12 := congrFun (congrFun hM' 0) 1
  have c13 := congrFun (congrFun hM' 0) 2
  have c23 := congrFun (congrFun hM' 1) 2
  simp [M, Matrix.mul_apply, Fin.sum_univ_three] at c11 c22 c33 c12 c13 c23
  refine ⟨p1 * x + p2 * y + p3 * z, q1 * x + q2 * y + q3 * z, w1 * x + w2 * y + w3 * z, ?_, ?_, ?_⟩
  · linear_combination (-x) * c11 - y * c12 - z * c13
  · linear_combination (-x) * c12 - y * c22 - z * c23
  · linear_combination (-x) * c13 - y * c23 - z * c33

/-- orbit frame of an origin state with Euler angles -/
theorem orbit_frame (x y z vx vy vz : ℝ)
    (hh : 0 < (y * vz - z * vy) ^ 2 + (z * vx - x * vz) ^ 2 + (x * vy - y * vx) ^ 2) :
    ∃ R vr vt Om inc u p1 p2 p3 q1 q2 q3 w1 w2 w3, 0 < R ∧ 0 < vt ∧ R ^ 2 = x ^ 2 + y ^ 2 + z ^ 2 ∧
      x = R * p1 ∧ y = R * p2 ∧ z = R * p3 ∧
      vx = vr * p1 + vt * q1 ∧ vy = vr * p2 + vt * q2 ∧ vz = vr * p3 + vt * q3 ∧
      p1 ^ 2 + p2 ^ 2 + p3 ^ 2 = 1 ∧ q1 ^ 2 + q2 ^ 2 + q3 ^ 2 = 1 ∧ p1 * q1 + p2 * q2 + p3 * q3 = 0 ∧
      w1 = p2 * q3 - p3 * q2 ∧ w2 = p3 * q1 - p1 * q3 ∧ w3 = p1 * q2 - p2 * q1 ∧
      p1 = cos Om * cos u - sin Om * cos inc * sin u ∧
      p2 = sin Om * cos u + cos Om * cos inc * sin u ∧
      p3 = sin inc * sin u ∧
      q1 = - sin Om * cos inc * cos u - cos Om * sin u ∧
      q2 = cos Om * cos inc * cos u - sin Om * sin u ∧
      q3 = sin inc * cos u ∧
      w1 = sin Om * sin inc ∧ w2 = - cos Om * sin inc ∧ w3 = cos inc := by
  obtain ⟨R, vr, vt, p1, p2, p3, q1, q2, q3, R0, vt0, hR, hV, hP, hQ, hPQ, e1, e2, e3, e4, e5, e6⟩ :=
    frame_exists x y z vx vy vz hh
  obtain ⟨Om, inc, u, d⟩ := euler_full p1 p2 p3 q1 q2 q3 _ _ _ hP hQ hPQ rfl rfl rfl
  exact ⟨R, vr, vt, Om, inc, u, p1, p2, p3, q1, q2, q3, _, _, _, R0, vt0, hR, e1, e2, e3, e4, e5, e6, hP, hQ, hPQ, rfl, rfl, rfl, d⟩

theorem both_zero {a b : ℝ} (h : ¬ 0 < a * a + b * b) : a = 0 ∧ b = 0 :=
  ⟨by nlinarith [sq_nonneg a, sq_nonneg b], by nlinarith [sq_nonneg a, sq_nonneg b]⟩

/-- polar form of a point in the upper half plane -/
theorem polar (c s : ℝ) (hs : 0 < s) :
    ∃ R D, 0 < R ∧ 0 < D ∧ D < π ∧ 0 < sin D ∧ c = R * cos D ∧ s = R * sin D := by
  obtain ⟨R, R0, hR⟩ : ∃ R, 0 < R ∧ R ^ 2 = c ^ 2 + s ^ 2 := ⟨sqrt (c ^ 2 + s ^ 2), by positivity, sq_sqrt (by positivity)⟩
  have h1 : c / R ≤ 1 := by rw [div_le_one R0]; nlinarith
  have h0 : -1 ≤ c / R := by rw [le_div_iff₀ R0]; nlinarith
  have h1' : c / R < 1 := by rw [div_lt_one R0]; nlinarith
  have h0' : -1 < c / R := by rw [lt_div_iff₀ R0]; nlinarith
  have hsin : sin (arccos (c / R)) = s / R := by
    rw [sin_arccos, show 1 - (c / R) ^ 2 = (s / R) ^ 2 by field_simp; linarith, sqrt_sq (by positivity)]
  refine ⟨R, arccos (c / R), R0, arccos_pos.mpr h1', arccos_lt_pi.mpr h0', by rw [hsin]; positivity, ?_, ?_⟩
  · rw [cos_arccos h0 h1]; field_simp
  · rw [hsin]; field_simp

/-- the sector-to-triangle ratio that belongs to a semi-parameter -/
theorem ratio_of (nu mu dt T p : ℝ) (hmu : 0 < mu) (ht : 0 < dt) (hT : 0 < T) (hnu : 0 < nu)
    (hp : p = (nu * T) ^ 2 / (mu * dt ^ 2)) : nu = sqrt mu * dt * sqrt p / T := by
  have h1 : sqrt p = nu * T / (sqrt mu * dt) := by
    rw [hp, show (nu * T) ^ 2 / (mu * dt ^ 2) = (nu * T / (sqrt mu * dt)) ^ 2 by
      rw [div_pow, mul_pow (sqrt mu), sq_sqrt hmu.le], sqrt_sq (by positivity)]
  rw [h1]
  have : 0 < sqrt mu := sqrt_pos.mpr hmu
  field_simp
