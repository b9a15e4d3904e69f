From 937b14837187faf906a32ddde2dd9bfe0ab643f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:54 +0000
Subject: [PATCH 01/33] fix: interpolate roughness influence factor on gamma_b
 * ksi and keep it at 1 above 10

---
 .../functions/hydraulic/wave_runup/taw2002.py            | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 952a73b..49b4047 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -824,10 +824,9 @@ def calculate_adjusted_influence_roughness_gamma_f(
         The adjusted influence factor for surface roughness gamma_f (-)
     """
 
-    gamma_f_adj = np.where(
-        (gamma_b * ksi_mm10 >= 1.8) & (gamma_b * ksi_mm10 <= 10.0),
-        ((ksi_mm10 - 1.8) * (1 - gamma_f) / (10.0 - 1.8)) + gamma_f,
-        gamma_f,
-    )
+    breaker_parameter = np.clip(gamma_b * ksi_mm10, 1.8, 10.0)
+    gamma_f_adj = (
+        (breaker_parameter - 1.8) * (1 - gamma_f) / (10.0 - 1.8)
+    ) + gamma_f
 
     return gamma_f_adj
-- 
2.43.0


From a30801134551561ba3f625792f4abc6e0ca27f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 02/33] fix: TAW (2002) sigma with design coefficients no
 longer raises UnboundLocalError

---
 .../functions/hydraulic/wave_overtopping/taw2002.py           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 11bf436..ba9daf8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -302,6 +302,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
@@ -674,6 +676,8 @@ def calculate_dimensionless_crest_freeboard(
             cor1 = 0.5 * sigma
             cor3 = 0.35 * sigma
         else:
+            cor1 = 0
+            cor3 = 0
             warnings.warn(
                 (
                     "Sigma is only applicable to the best fit coefficients! The design values of the coefficients "
-- 
2.43.0


From e1e071b73105f8ae307433c15bc2e3d51133ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 03/33] fix: TAW (2002) maximum crest freeboard uses the
 supplied gravitational acceleration

---
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index ba9daf8..7133e6a 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -757,7 +757,13 @@ def calculate_dimensionless_crest_freeboard(
     )
 
     Rc_diml_max = Rc_diml_max_equation(
-        Hm0=Hm0, q=q, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
+        Hm0=Hm0,
+        q=q,
+        c3=c3,
+        cor3=cor3,
+        gamma_beta=gamma_beta,
+        gamma_f=gamma_f_adj,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-- 
2.43.0


From 6caea04d79a323cb6461ce02fbe829ec8c68fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:08 +0000
Subject: [PATCH 04/33] fix: TAW (2002) run-up with a single slope and no
 gamma_b passes the slope to the berm length

---
 .../functions/hydraulic/wave_runup/taw2002.py                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 49b4047..35146bd 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -300,6 +300,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
     if np.isnan(gamma_b):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
+            cot_alpha=cot_alpha,
             cot_alpha_down=cot_alpha_down,
             cot_alpha_up=cot_alpha_up,
             B_berm=B_berm,
-- 
2.43.0


From 96f86ce7d94fa63a587cbc246255ff3d4689a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:40 +0000
Subject: [PATCH 05/33] fix: EurOtop (2018) run-up uses a supplied gamma_beta
 instead of ignoring it

---
 .../functions/hydraulic/wave_runup/eurotop2018.py        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index b2caa1e..6012533 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -179,10 +179,11 @@ def calculate_dimensionless_wave_runup_height_z2p(
         c1=c1, c2=c2, c3=c3, c4=c4, use_best_fit=use_best_fit
     )
 
-    gamma_beta = calculate_influence_oblique_waves_gamma_beta(
-        beta=beta,
-        gamma_f=gamma_f,
-    )
+    if wave_runup_taw2002.check_calculate_gamma_beta(beta=beta, gamma_beta=gamma_beta):
+        gamma_beta = calculate_influence_oblique_waves_gamma_beta(
+            beta=beta,
+            gamma_f=gamma_f,
+        )
 
     z2p_diml, max_reached = (
         wave_runup_taw2002.calculate_dimensionless_wave_runup_height_z2p(
-- 
2.43.0


From 5343c40fd485103cfb39853a3d132c4de402a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:44 +0000
Subject: [PATCH 06/33] fix: EurOtop (2018) overtopping uses a supplied gamma_b
 instead of ignoring it

---
 .../hydraulic/wave_overtopping/eurotop2018.py | 70 ++++++++++---------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 1a0efa3..8f3a9c8 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,24 +265,25 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
@@ -678,24 +679,25 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    L_berm = wave_runup_taw2002.calculate_berm_length(
-        Hm0=Hm0,
-        cot_alpha=cot_alpha,
-        cot_alpha_down=cot_alpha_down,
-        cot_alpha_up=cot_alpha_up,
-        B_berm=B_berm,
-    )
+    if np.isnan(gamma_b):
+        L_berm = wave_runup_taw2002.calculate_berm_length(
+            Hm0=Hm0,
+            cot_alpha=cot_alpha,
+            cot_alpha_down=cot_alpha_down,
+            cot_alpha_up=cot_alpha_up,
+            B_berm=B_berm,
+        )
 
-    gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
-        Hm0=Hm0,
-        Tmm10=Tmm10,
-        cot_alpha_average=cot_alpha,
-        B_berm=B_berm,
-        L_berm=L_berm,
-        db=db,
-        gamma_f=gamma_f,
-        gamma_beta=gamma_beta,
-    )
+        gamma_b = wave_runup_eurotop2018.iteration_procedure_gamma_b(
+            Hm0=Hm0,
+            Tmm10=Tmm10,
+            cot_alpha_average=cot_alpha,
+            B_berm=B_berm,
+            L_berm=L_berm,
+            db=db,
+            gamma_f=gamma_f,
+            gamma_beta=gamma_beta,
+        )
 
     gamma_f_adj = wave_runup_taw2002.calculate_adjusted_influence_roughness_gamma_f(
         gamma_f=gamma_f, gamma_b=gamma_b, ksi_mm10=ksi_mm10
-- 
2.43.0


From 065f331457e2555445bc45880241fa64d7b64cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:49 +0000
Subject: [PATCH 07/33] fix: EurOtop (2018) maximum discharge uses the adjusted
 gamma_f like the inverse crest freeboard

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8f3a9c8..7900de4 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -307,7 +307,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0,
         Rc=Rc,
         gamma_beta=gamma_beta,
-        gamma_f=gamma_f,
+        gamma_f=gamma_f_adj,
         gamma_star=gamma_star,
         c2=c2,
         c3=c3,
-- 
2.43.0


From 75f829f7bd9bfe30bb0796dc0fe00de11def6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:54 +0000
Subject: [PATCH 08/33] fix: EurOtop (2018) crest freeboard forwards
 use_best_fit to the composite slope run-up

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 7900de4..984c75d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -664,6 +664,7 @@ def calculate_dimensionless_crest_freeboard(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
@@ -1181,6 +1182,7 @@ def calculate_dimensionless_crest_freeboard_rubble_mound(
             db=db,
             gamma_f=gamma_f,
             gamma_beta=gamma_beta,
+            use_best_fit=use_best_fit,
         )
 
         cot_alpha = wave_runup_taw2002.determine_average_slope(
-- 
2.43.0


From e110a68436a75c4f5e9787697c9cac116cb328dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:17 +0000
Subject: [PATCH 09/33] fix: Van Gent (2021) caisson overtopping without
 crossing seas no longer returns NaN when Hm0_swell is omitted

---
 .../functions/hydraulic/wave_overtopping/vangent2021_caisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index a7315c2..48e6ebc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -201,6 +201,7 @@ def calculate_dimensionless_overtopping_discharge_q(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
@@ -400,6 +401,7 @@ def calculate_dimensionless_crest_freeboard(
 
     if not crossing_seas:
         c_swell = 0.0
+        Hm0_swell = 0.0
     else:
         if np.isnan(Hm0_swell):
             raise ValueError(
-- 
2.43.0


From c6e2f11738b90749e839c0c8fcfb3f77356d3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:35 +0000
Subject: [PATCH 10/33] fix: Van Gent et al. (2025) validity checks test Gc,
 B_berm and db themselves

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 307cbb6..b34026b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -135,12 +135,12 @@ def check_validity_range(
         core_utility.check_variable_validity_range(
             "Non-dimensional armour width in front of crest wall Gc / Hm0",
             "Van Gent et al. (2025)",
-            Rc / Hm0,
+            Gc / Hm0,
             0.6,
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B_berm)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm width B / Hm0",
             "Van Gent et al. (2025)",
@@ -149,7 +149,7 @@ def check_validity_range(
             5.0,
         )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(Rc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(db)):
         core_utility.check_variable_validity_range(
             "Non-dimensional Berm height db / Hm0",
             "Van Gent et al. (2025)",
-- 
2.43.0


From 91e1d41a783039b846263e6de7be31987838a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:40 +0000
Subject: [PATCH 11/33] fix: Van Gent et al. (2025) maximum crest freeboard
 applies the design correction and g like the discharge formula

---
 .../functions/hydraulic/wave_overtopping/vangent2025.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index b34026b..4a2d539 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -919,13 +919,14 @@ def calculate_dimensionless_crest_freeboard(
     Rc_diml_max = Rc_diml_max_equation(
         Hm0=Hm0,
         Hm0_swell=Hm0_swell,
-        q=q,
+        q=q_diml * np.sqrt(g * Hm0**3),
         cot_alpha=cot_alpha,
         ksi_mm10=ksi_mm10,
         gamma_f=gamma_f,
         gamma_b=gamma_b,
         gamma_v=gamma_v,
         gamma_beta=gamma_beta,
+        g=g,
     )
 
     Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-- 
2.43.0


From c60769a2d122b8ac45213eaa17198f902ca1f143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:56 +0000
Subject: [PATCH 12/33] fix: De Ridder et al. (2024) eq. 24 crest freeboard
 uses the supplied gravitational acceleration

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py         | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index 27560fe..d8a3fdc 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -147,6 +147,7 @@ def calculate_crest_freeboard_discharge_q_eq24(
         smm10_HF=smm10_HF,
         gamma_f=gamma_f,
         q=q,
+        g=g,
     )
 
     Rc = Rc_diml * Hm0
-- 
2.43.0


From 8e4886aa024276f56aa5d729331765bcc6deeb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:02 +0000
Subject: [PATCH 13/33] fix: De Ridder et al. (2024, 2026) check the short-wave
 steepness against its validity range

---
 .../functions/hydraulic/wave_overtopping/deridder2024.py      | 4 ++++
 .../functions/hydraulic/wave_overtopping/deridder2026.py      | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
index d8a3fdc..0232024 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2024.py
@@ -198,6 +198,7 @@ def calculate_crest_freeboard_discharge_q_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
@@ -246,6 +247,7 @@ def calculate_dimensionless_crest_freeboard_discharge_q_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc_diml * Hm0,
     )
@@ -369,6 +371,7 @@ def calculate_dimensionless_overtopping_discharge_eq24(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
     )
@@ -414,6 +417,7 @@ def calculate_dimensionless_overtopping_discharge_eq26(
 
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
index b1086c8..806b2c3 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/deridder2026.py
@@ -351,6 +351,7 @@ def calculate_dimensionless_overtopping_discharge_eq28(
     )
     check_validity_range(
         Hm0=Hm0,
+        Hm0_HF=Hm0,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0) / smm10_HF / 9.81),
         Rc=Rc,
         theta=theta,
@@ -420,6 +421,7 @@ def calculate_dimensionless_overtopping_discharge_eq32(
 
     check_validity_range(
         Hm0=Hm0_HF,
+        Hm0_HF=Hm0_HF,
         Tmm10_HF=np.sqrt((2 * np.pi * Hm0_HF) / smm10_HF / 9.81),
         Rc=Rc,
         Hm0_LF=Hm0_LF,
-- 
2.43.0


From 026ba21911ff9aea778c48af885445e850778552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:44 +0000
Subject: [PATCH 14/33] fix: local wave length evaluates array wave periods and
 length-one depths elementwise

---
 .../functions/core_physics.py                        | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_physics.py b/deltares_coastal_structures_toolbox/functions/core_physics.py
index d6e7737..531795c 100644
--- a/deltares_coastal_structures_toolbox/functions/core_physics.py
+++ b/deltares_coastal_structures_toolbox/functions/core_physics.py
@@ -395,14 +395,12 @@ def calculate_local_wavelength(
 
     # implementation of disper handles arrays for T, but not for h, hence this implementation
     if isinstance(h, (float, int)):
-        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)[0]
-    elif len(h) > 1 and isinstance(T, float):
+        k = dispersion.disper(w=((2 * np.pi) / T), h=h, g=g)
+        if np.ndim(T) == 0:
+            k = k[0]
+    else:
         k = np.array([])
-        for hsub in h:
-            k = np.append(k, dispersion.disper(w=((2 * np.pi) / T), h=hsub, g=g))
-    elif len(h) > 1 and len(h) == len(T):
-        k = np.array([])
-        for hsub, Tsub in zip(h, T):
+        for hsub, Tsub in zip(*np.broadcast_arrays(h, T)):
             k = np.append(k, dispersion.disper(w=((2 * np.pi) / Tsub), h=hsub, g=g))
 
     L = (2 * np.pi) / k
-- 
2.43.0


From b0fd2e750e99f5b5a2516ebf74737c5dc2d6739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:49 +0000
Subject: [PATCH 15/33] fix: Goda (1967) transmission no longer truncates an
 array of coefficients to integers

---
 .../functions/hydraulic/wave_transmission/goda1967_caisson.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
index a645d08..952eb1d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/goda1967_caisson.py
@@ -51,7 +51,7 @@ def calculate_wave_transmission_Kt(
         Rc_over_Hsi = Rc / Hsi
 
         if Rc_over_Hsi <= -1 * alpha_1 - beta_1:
-            Kt = 1
+            Kt = 1.0
         elif Rc_over_Hsi <= alpha_1 - beta_1:
             Kt = 0.5 * (1 - np.sin((np.pi / 2) * ((Rc_over_Hsi + beta_1) / (alpha_1))))
         else:
-- 
2.43.0


From ae0acececda8a006883de4b19f9870234772e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:07 +0000
Subject: [PATCH 16/33] fix: Van Gent et al. (2023) transmission checks its
 validity range

---
 .../functions/hydraulic/wave_transmission/vangent2023.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
index c8b61b1..2b56513 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2023.py
@@ -161,4 +161,8 @@ def calculate_wave_transmission_Kt(
 
     Kt = c1 * np.tanh(-((Rc / Hm0) + c2 * np.power(B / Lmm10, c3) + c4)) + c5
 
+    check_validity_range(
+        Hm0=Hm0, Tmm10=Tmm10, Rc=Rc, B=B, structure_type=structure_type
+    )
+
     return Kt
-- 
2.43.0


From 81f81a47a883a8425e6e3aab28f662bc599b4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:12 +0000
Subject: [PATCH 17/33] fix: Van Gent (2024) set-up validity check tests the
 crest width when it is supplied

---
 .../functions/hydraulic/wave_transmission/vangent2024_setup.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
index 05958f8..3ed4f18 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_transmission/vangent2024_setup.py
@@ -85,7 +85,7 @@ def check_validity_range(
                     3.0,
                 )
 
-    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(hc)):
+    if not np.any(np.isnan(Hm0)) and not np.any(np.isnan(B)):
         match structure_type:
             case "permeable":
                 core_utility.check_variable_validity_range(
-- 
2.43.0


From 28b9f48d99234d109d6eb5e5dad6373e92acf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:54 +0000
Subject: [PATCH 18/33] fix: Etemad-Shahidi et al. (2021) wave height iteration
 counts its iterations and respects max_iter

---
 .../functions/structural/stability_toe_berm/etemadshahidi2021.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index fd13f24..ad9c7e5 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -448,6 +448,7 @@ def calculate_significant_wave_height_Hs(
 
         Hs_diff = np.abs(Hs - Hs_prev)
         Hs_prev = Hs
+        n_iter += 1
 
         smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10, g=g)
 
-- 
2.43.0


From dc96325bb2a4d66a217735cb7f5d1c57a50bba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 19/33] fix: Etemad-Shahidi et al. (2021) toe validity check
 evaluates the wave steepness and toe width

---
 .../structural/stability_toe_berm/etemadshahidi2021.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
index ad9c7e5..c35f492 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/etemadshahidi2021.py
@@ -62,7 +62,7 @@ def check_validity(
         )
 
     if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Tmm10)):
-        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, Tmm10=Tmm10)
+        smm10 = core_physics.calculate_wave_steepness_s(H=Hs, T=Tmm10)
         core_utility.check_variable_validity_range(
             "Wave steepness sm-1,0",
             "Etemad-Shahidi et al. (2021)",
@@ -98,7 +98,7 @@ def check_validity(
             23.40,
         )
 
-    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(ht)):
+    if not np.any(np.isnan(Hs)) and not np.any(np.isnan(Bt)):
         core_utility.check_variable_validity_range(
             "Relative toe width Bt/Hs",
             "Etemad-Shahidi et al. (2021)",
-- 
2.43.0


From 8f2a672cdc967be54074b70cbed6365d0e4049a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:10 +0000
Subject: [PATCH 20/33] fix: Van der Meer (1998) toe validity check uses Ns =
 Hs / (Delta Dn50) and names the right quantities

---
 .../structural/stability_toe_berm/vandermeer1998.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
index 57e7cf1..cc479eb 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/vandermeer1998.py
@@ -42,7 +42,7 @@ def check_validity(
 
     if not np.any(np.isnan(Hs)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (h)",
+            "Significant wave height Hs",
             "van der Meer (1998)",
             Hs,
             0.01,
@@ -51,7 +51,7 @@ def check_validity(
 
     if not np.any(np.isnan(ht)) and not np.any(np.isnan(h)):
         core_utility.check_variable_validity_range(
-            "Relative toe height (Dn50)",
+            "Relative toe height (h)",
             "van der Meer (1998)",
             ht / h,
             0.4,
@@ -76,7 +76,7 @@ def check_validity(
         core_utility.check_variable_validity_range(
             "Nod vs Ns",
             "van der Meer (1998)",
-            (Nod**-0.15) * (Hs / Delta * Dn50),
+            (Nod**-0.15) * (Hs / (Delta * Dn50)),
             2,
             np.inf,
         )
-- 
2.43.0


From 15c2773e0f06fc2d5ffefb71355452ba1ead8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:15 +0000
Subject: [PATCH 21/33] fix: Hudson (1959) damage factor table covers 100%
 damage

---
 .../functions/structural/stability_rock_armour/hudson1959.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
index d8deb79..8b7cdf3 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/hudson1959.py
@@ -138,6 +138,7 @@ def lookup_table_damage_factors(
     mult_factors_smooth = np.array([1.0, 1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56, 1.56])
 
     ind = np.searchsorted(percentages, damage_percentage, "right")
+    ind = np.minimum(ind, len(percentages) - 1)
     if rock_type.lower().strip() == "rough":
         factor = mult_factors_rough[ind]
     elif rock_type.lower().strip() == "smooth":
-- 
2.43.0


From d6eeb9cf59f21e05daa88334c8b68b519343ca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:35 +0000
Subject: [PATCH 22/33] fix: Van Gent and Van der Werf (2019) oblique crest
 wall forces cannot become negative

---
 .../structural/forces_crestwall/vangentvanderwerf2019.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
index e1cf5ab..091b4ca 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/forces_crestwall/vangentvanderwerf2019.py
@@ -419,6 +419,7 @@ def calculate_FH2p_oblique(
     )
 
     FH2p_oblique = gamma_FH_beta * FH2p_perpendicular
+    FH2p_oblique = np.max([FH2p_oblique, np.zeros_like(FH2p_oblique)], axis=0)
 
     check_validity(Hm0=Hm0, Ac=Ac, Rc=Rc, beta=beta)
 
@@ -637,6 +638,7 @@ def calculate_FV2p_oblique(
     )
 
     FV2p_oblique = gamma_FV_beta * FV2p_perpendicular
+    FV2p_oblique = np.max([FV2p_oblique, np.zeros_like(FV2p_oblique)], axis=0)
 
     check_validity(Hm0=Hm0, Ac=Ac, beta=beta, Fb=Fb)
 
-- 
2.43.0


From f92c0217dd90ef86623426d00101bee9f0eedbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:41 +0000
Subject: [PATCH 23/33] fix: Core-Loc mass and wave height check the slope
 validity range

---
 .../stability_concrete_armour/core_loc_hudson1959.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
index 607e0e5..cd1d601 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_concrete_armour/core_loc_hudson1959.py
@@ -118,6 +118,8 @@ def calculate_unit_mass_M(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return M
 
 
@@ -178,6 +180,8 @@ def calculate_significant_wave_height_Hs(
         alpha_Hs=alpha_Hs,
     )
 
+    check_validity_range(cot_alpha=cot_alpha)
+
     return Hs
 
 
-- 
2.43.0


From 462aef81a3b0bd67a375d050176da9cad633927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:04 +0000
Subject: [PATCH 24/33] fix: Van Gent (2007) rear wave height iteration starts
 from Rc so a structure without front freeboard step works

---
 .../functions/structural/stability_rock_rear/vangent2007.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
index 2fd7e39..3584e42 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_rear/vangent2007.py
@@ -365,7 +365,7 @@ def calculate_maximum_significant_wave_height_Hs(
 
     Dn50 = core_physics.check_usage_Dn50_or_M50(Dn50, M50, rho_rock)
 
-    Hs_i1 = Rc2_front
+    Hs_i1 = Rc
     Hs_i0 = Hs_i1 + np.inf
     iteration = 0
 
-- 
2.43.0


From 267c9cd50519e96a650559baad08ad3e879d8d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:32 +0000
Subject: [PATCH 25/33] fix: Scaravaglione (2025) and modified Van der Meer
 check the stability number with the supplied water density

---
 .../structural/stability_rock_armour/scaravaglione2025.py      | 3 +++
 .../stability_rock_armour/vandermeer1988_modified.py           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
index c21e5a2..dbe10f9 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/scaravaglione2025.py
@@ -204,6 +204,7 @@ def calculate_damage_number_S(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -280,6 +281,7 @@ def calculate_nominal_rock_diameter_Dn50(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -368,5 +370,6 @@ def calculate_significant_wave_height_Hm0(
         Dn50=Dn50,
         Dn50_core=Dn50_core,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hm0
diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
index cd3b905..f6c1cef 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_rock_armour/vandermeer1988_modified.py
@@ -218,6 +218,7 @@ def calculate_damage_number_S(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
 
     return S
@@ -320,6 +321,7 @@ def calculate_nominal_rock_diameter_Dn50(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Dn50
 
@@ -443,5 +445,6 @@ def calculate_significant_wave_height_Hs(
         P=P,
         Dn50=Dn50,
         rho_armour=rho_armour,
+        rho_water=rho_water,
     )
     return Hs
-- 
2.43.0


From 03c19e7076f3af11b0f71d9c00a8bc8e07c61d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 26/33] fix: validity range check accepts NumPy scalar values

---
 deltares_coastal_structures_toolbox/functions/core_utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_coastal_structures_toolbox/functions/core_utility.py b/deltares_coastal_structures_toolbox/functions/core_utility.py
index 3d02426..174acfd 100644
--- a/deltares_coastal_structures_toolbox/functions/core_utility.py
+++ b/deltares_coastal_structures_toolbox/functions/core_utility.py
@@ -35,7 +35,7 @@ def check_variable_validity_range(
     if isinstance(values, np.ndarray):
         values = values.tolist()
 
-    if isinstance(values, (int, float)):
+    if isinstance(values, (int, float, np.number)):
         values = [values]
 
     is_valid = []
-- 
2.43.0


From 2bf966d573ae19c771377cc4a2fa9b769279e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:11 +0000
Subject: [PATCH 27/33] fix: accept arrays for given influence factors, swell
 height and stone diameter

---
 .../hydraulic/wave_overtopping/eurotop2018.py    |  4 ++--
 .../hydraulic/wave_overtopping/taw2002.py        |  4 ++--
 .../wave_overtopping/vangent2021_caisson.py      |  8 ++++----
 .../hydraulic/wave_overtopping/vangent2025.py    | 16 ++++++++--------
 .../functions/hydraulic/wave_runup/taw2002.py    |  2 +-
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 984c75d..8abc27b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -265,7 +265,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -680,7 +680,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 7133e6a..2f5ff6d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -341,7 +341,7 @@ def calculate_dimensionless_overtopping_discharge_q(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
@@ -715,7 +715,7 @@ def calculate_dimensionless_crest_freeboard(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = wave_runup_taw2002.calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
index 48e6ebc..db291ee 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2021_caisson.py
@@ -203,12 +203,12 @@ def calculate_dimensionless_overtopping_discharge_q(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
@@ -403,12 +403,12 @@ def calculate_dimensionless_crest_freeboard(
         c_swell = 0.0
         Hm0_swell = 0.0
     else:
-        if np.isnan(Hm0_swell):
+        if np.all(np.isnan(Hm0_swell)):
             raise ValueError(
                 "Hm0_swell must be provided when calculating wave overtopping for crossing seas."
             )
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(
             beta=beta,
             gamma_p=gamma_p,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index 4a2d539..c29e9cf 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -331,14 +331,14 @@ def calculate_dimensionless_overtopping_discharge_q(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -348,8 +348,8 @@ def calculate_dimensionless_overtopping_discharge_q(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(H=Hm0, T=Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
@@ -848,14 +848,14 @@ def calculate_dimensionless_crest_freeboard(
         Raise an error if gamma_f is not provided and Dn50 is not provided so it cannot be calculated.
     """
 
-    if np.isnan(gamma_beta):
+    if np.all(np.isnan(gamma_beta)):
         gamma_beta = calculate_influence_oblique_waves_gamma_beta(beta=beta)
 
     ksi_mm10 = core_physics.calculate_Iribarren_number_ksi(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_b = calculate_influence_berm_gamma_b(
             Hm0=Hm0,
@@ -865,8 +865,8 @@ def calculate_dimensionless_crest_freeboard(
             BL=Ac - db,
         )
 
-    if np.isnan(gamma_f):
-        if np.isnan(Dn50):
+    if np.all(np.isnan(gamma_f)):
+        if np.all(np.isnan(Dn50)):
             raise ValueError("Either gamma_f or Dn50 should be provided")
         smm10 = core_physics.calculate_wave_steepness_s(Hm0, Tmm10)
         gamma_f = calculate_influence_friction_gamma_f(Dn50=Dn50, Hm0=Hm0, smm10=smm10)
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 35146bd..cd174cf 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -297,7 +297,7 @@ def calculate_dimensionless_wave_runup_height_z2p(
         H=Hm0, T=Tmm10, cot_alpha=cot_alpha
     )
 
-    if np.isnan(gamma_b):
+    if np.all(np.isnan(gamma_b)):
         L_berm = calculate_berm_length(
             Hm0=Hm0,
             cot_alpha=cot_alpha,
-- 
2.43.0


From 7ea00f1b11852ea6ebe0ee561208ca2d87fb2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 28/33] fix: run-up z2% of Van Gent (2001) accepts arrays of
 wave heights

---
 .../functions/hydraulic/wave_runup/vangent2001.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
index bbafab7..71c8f4d 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/vangent2001.py
@@ -104,10 +104,11 @@ def calculate_wave_runup_height_z2p(
         Raise an error when both or neither Hm0 and Hs are provided.
     """
 
-    if (np.isnan(Hm0) and np.isnan(Hs)) or (not np.isnan(Hs) and not np.isnan(Hm0)):
+    Hm0_missing, Hs_missing = np.all(np.isnan(Hm0)), np.all(np.isnan(Hs))
+    if Hm0_missing == Hs_missing:
         raise ValueError("Either Hm0 or Hs should be provided")
 
-    if np.isnan(Hs) and not np.isnan(Hm0):
+    if Hs_missing:
         # Use coefficients for Hm0 instead of Hs
         c0 = 1.45
         c1 = 3.8
-- 
2.43.0


From c44b7590a4f36afe22e65aec270af68676b00a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:22 +0000
Subject: [PATCH 29/33] fix: EurOtop 2018 influence of oblique waves accepts
 arrays of roughness factors

---
 .../functions/hydraulic/wave_runup/eurotop2018.py      | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
index 6012533..725aec7 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/eurotop2018.py
@@ -275,12 +275,10 @@ def calculate_influence_oblique_waves_gamma_beta(
         The influence factor for oblique wave incidence gamma_beta (-)
     """
 
-    if gamma_f > gamma_f_crit:
-        # Structure slope is smooth
-        c_gamma_beta = c_gamma_beta_smooth
-    else:
-        # Structure slope is rough
-        c_gamma_beta = c_gamma_beta_rough
+    # Distinguish smooth and rough structure slopes
+    c_gamma_beta = np.where(
+        gamma_f > gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough
+    )
 
     gamma_beta = wave_runup_taw2002.calculate_influence_oblique_waves_gamma_beta(
         beta=beta,
-- 
2.43.0


From cf6e9b82b11e7bf5260b6c14fb4e14e59c581351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 30/33] fix: berm influence factor accepts arrays

---
 .../functions/hydraulic/wave_runup/taw2002.py                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index cd174cf..5ab3561 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -681,7 +681,7 @@ def iteration_procedure_gamma_b(
         The influence factor for a berm gamma_b (-)
     """
 
-    if B_berm == 0.0 or L_berm == 0.0:
+    if np.all(B_berm == 0.0) or np.all(L_berm == 0.0):
         gamma_b = 1.0
     else:
         z2p_i1, _ = calculate_wave_runup_height_z2p(
@@ -762,7 +762,7 @@ def calculate_influence_berm_gamma_b(
     )
     rB = B_berm / L_berm
 
-    gamma_b = np.max([np.min([1.0 - rB * (1.0 - rdh), 1.0]), 0.6])
+    gamma_b = np.maximum(np.minimum(1.0 - rB * (1.0 - rdh), 1.0), 0.6)
     return gamma_b
 
 
-- 
2.43.0


From 276255e20040e5f418fe16a694b4fb3eef9abc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:32 +0000
Subject: [PATCH 31/33] fix: limit to the maximum equation also when only one
 of the two equations is an array

---
 .../functions/hydraulic/wave_overtopping/eurotop2018.py   | 8 ++++----
 .../functions/hydraulic/wave_overtopping/taw2002.py       | 8 ++++----
 .../functions/hydraulic/wave_overtopping/vangent2025.py   | 8 ++++----
 .../functions/hydraulic/wave_runup/taw2002.py             | 4 ++--
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
index 8abc27b..597ee83 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/eurotop2018.py
@@ -313,8 +313,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         c3=c3,
     )
 
-    q_diml = np.min([q_diml_eq510, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq510, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq510, q_diml_max)
+    max_reached = np.minimum(q_diml_eq510, q_diml_max) == q_diml_max
 
     return q_diml, max_reached
 
@@ -733,8 +733,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq510, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq510, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq510, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq510, Rc_diml_max) == Rc_diml_max
 
     return Rc_diml, max_reached
 
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
index 2f5ff6d..6132772 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/taw2002.py
@@ -380,8 +380,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         Hm0=Hm0, Rc=Rc, c3=c3, cor3=cor3, gamma_beta=gamma_beta, gamma_f=gamma_f_adj
     )
 
-    q_diml = np.min([q_diml_eq24, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eq24, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eq24, q_diml_max)
+    max_reached = np.minimum(q_diml_eq24, q_diml_max) == q_diml_max
 
     check_validity_range(
         Hm0=Hm0,
@@ -766,8 +766,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml_eq24, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml_eq24, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml_eq24, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml_eq24, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
index c29e9cf..abd0a7b 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_overtopping/vangent2025.py
@@ -376,8 +376,8 @@ def calculate_dimensionless_overtopping_discharge_q(
         gamma_beta=gamma_beta,
     )
 
-    q_diml = np.min([q_diml_eqB1, q_diml_max], axis=0)
-    max_reached = np.min([q_diml_eqB1, q_diml_max], axis=0) == q_diml_max
+    q_diml = np.minimum(q_diml_eqB1, q_diml_max)
+    max_reached = np.minimum(q_diml_eqB1, q_diml_max) == q_diml_max
 
     if include_influence_wind:
         gamma_w = calculate_influence_wind_gamma_w(
@@ -929,8 +929,8 @@ def calculate_dimensionless_crest_freeboard(
         g=g,
     )
 
-    Rc_diml = np.min([Rc_diml, Rc_diml_max], axis=0)
-    max_reached = np.min([Rc_diml, Rc_diml_max], axis=0) == Rc_diml_max
+    Rc_diml = np.minimum(Rc_diml, Rc_diml_max)
+    max_reached = np.minimum(Rc_diml, Rc_diml_max) == Rc_diml_max
 
     check_validity_range(
         Hm0=Hm0,
diff --git a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
index 5ab3561..57c3a44 100644
--- a/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
+++ b/deltares_coastal_structures_toolbox/functions/hydraulic/wave_runup/taw2002.py
@@ -329,8 +329,8 @@ def calculate_dimensionless_wave_runup_height_z2p(
     z2p_diml_eq3a = c1 * gamma_b * gamma_f_adj * gamma_beta * ksi_mm10
     z2p_diml_eq3b = c4 * gamma_f_adj * gamma_beta * (c2 - c3 / np.sqrt(ksi_mm10))
 
-    z2p_diml = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0)
-    max_reached = np.min([z2p_diml_eq3a, z2p_diml_eq3b], axis=0) == z2p_diml_eq3b
+    z2p_diml = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b)
+    max_reached = np.minimum(z2p_diml_eq3a, z2p_diml_eq3b) == z2p_diml_eq3b
 
     check_validity_range(
         Hm0=Hm0,
-- 
2.43.0


From bdef7ea3be90249f116ea731b197c95283f1d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 32/33] fix: Takahashi (1990) wave height found also when the
 solution lies at the edge of the search table

---
 .../stability_toe_berm/takahashi1990_caisson.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index a466f3c..5dcb544 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -177,11 +177,13 @@ def calculate_significant_wave_height_Hs(
     )
     Hs_new = core_physics.check_usage_stabilitynumber(Dn=Dn50, Ns=Ns, Delta=Delta)[0]
 
-    # span coarse between Hs_prev and Hs_new*2
+    # span coarse between Hs_prev and Hs_new, with a margin so that the solution
+    # has a neighbour on both sides
+    Hs_step = Hs_start / 20
     Hs_table_in = np.arange(
-        start=np.minimum(Hs_start, Hs_new),
-        step=Hs_start / 20,
-        stop=np.maximum(Hs_start, Hs_new),
+        start=np.minimum(Hs_start, Hs_new) - Hs_step,
+        step=Hs_step,
+        stop=np.maximum(Hs_start, Hs_new) + 2 * Hs_step,
     )
     Hs_table_out = np.array([])
 
-- 
2.43.0


From 990532752ef89d3968937a5a5550f709a31bdca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:10 +0000
Subject: [PATCH 33/33] fix: Takahashi (1990) depth above the toe raises
 instead of searching forever when no depth matches

---
 .../structural/stability_toe_berm/takahashi1990_caisson.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
index 5dcb544..7db687d 100644
--- a/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
+++ b/deltares_coastal_structures_toolbox/functions/structural/stability_toe_berm/takahashi1990_caisson.py
@@ -282,6 +282,12 @@ def calculate_significant_depth_above_toe_hacc(
     # determine Ns to be used
     Ns = core_physics.check_usage_stabilitynumber(Dn=Dn50, Hs=Hs, Delta=Delta)[0]
 
+    # the stability number of the formula is at least 1.8
+    if Ns < 1.8:
+        raise ValueError(
+            "Stability number {} is below 1.8: stable at any water depth".format(Ns)
+        )
+
     # set iteration parameters
     dht = Hs / 20
     hacc_in = dht
-- 
2.43.0

