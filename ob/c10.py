"""C10 - monotone response of run-up, overtopping and transmission"""
from ob._mono import *

P_ = "C10"
# the roughness factor grows with the breaker parameter (obligations runup/gamma_f_adj/*) and the results grow with it
# (obligations */gamma_f): for the arguments below any fixed value of it is enough
G_ = ((RU + "taw2002", "calculate_adjusted_influence_roughness_gamma_f", "G", (0.3, 1.0)),)
SM = dict(gamma_f=1.0)
for fam in ("taw2002", "eurotop2018"):
    for t in ("", "/bestfit"):
        k = "runup/%s%s" % (fam, t)
        mono(P_, k, "gamma_beta+ gamma_f+", pre=steep)
        mono(P_, k, "Tmm10+ cot_alpha- gamma_b+", pre=steep, free=G_)
        mono(P_, k, "Hm0+", pre=steep, const=SM, name=k + "/smooth")
for x in ("z1p", "z2p", "z10p"):
    mono(P_, "runup/vangent2001/" + x, "Hs+ Tmm10+ cot_alpha- gamma+")
mono(P_, "runup/gamma_b", "B_berm- L_berm+ z2p- Hm0-")
mono(P_, "runup/gamma_f_adj", "gamma_f+ gamma_b+ ksi_mm10+")
for k in ("runup/gamma_beta", "ot/gamma_beta"):
    mono(P_, k, "beta-", box=dict(beta=(0.0, 120.0)))
for k in ("runup/gamma_beta18", "ot/gamma_beta18"):
    mono(P_, k, "beta- gamma_f+", box=dict(beta=(0.0, 120.0)))

for t in ("", "/bestfit"):
    for m, extra in (("taw2002", ""), ("eurotop2018", " gamma_star+")):
        s = "gamma_v+ gamma_beta+ gamma_f+" + extra
        mono(P_, "q/" + m + t, s + " Rc-")
        mono(P_, "Rc/" + m + t, s + " q-", positive=True)
        for k, ps in (("q/" + m + t, False), ("Rc/" + m + t, True)):
            mono(P_, k, "Tmm10+ cot_alpha- gamma_b+", positive=ps, free=G_)
            mono(P_, k, "Hm0+", positive=ps, const=SM, name=k + "/smooth")
    for y in ("2007", "2018"):
        s = "Hm0+ gamma_beta+ gamma_f+"
        mono(P_, "q/rubble%s%s" % (y, t), s + " Rc-")
        mono(P_, "Rc/rubble%s%s" % (y, t), s + " q-", positive=True)
for o in ("", "/short_crested_waves", "/parapet"):
    mono(P_, "q/caisson2021" + o, "Hm0+ Rc- beta-")
    mono(P_, "Rc/caisson2021" + o, "Hm0+ q- beta-", positive=True)
mono(P_, "q/caisson2021/crossing_seas", "Rc- Hm0_swell+")
mono(P_, "Rc/caisson2021/crossing_seas", "q- Hm0_swell+", positive=True)
mono(P_, "q/deridder/eq24", "Hm0+ smm10_HF- gamma_f+ Rc-")
mono(P_, "q/deridder/eq26", "Hm0_LF+ Rc-")
mono(P_, "q/deridder/eq28", "Hm0+ smm10_HF- gamma_f+ theta- Rc-")
mono(P_, "q/deridder/eq32", "Hm0_LF+ Rc-")
mono(P_, "Rc/deridder/eq24", "Hm0+ smm10_HF- gamma_f+ q-", positive=True)
mono(P_, "Rc/deridder/eq26", "Hm0_LF+ q-", positive=True)
mono(P_, "Rc/deridder/eq28", "Hm0+ smm10_HF- gamma_f+ theta- q-", positive=True)
mono(P_, "Rc/deridder/eq32", "Hm0_LF+ q-", positive=True)
for t in ("", "/mean"):
    mono(P_, "q/vangent2025" + t, "Hm0_swell+ Rc-")
    mono(P_, "Rc/vangent2025" + t, "Hm0_swell+ q-")
mono(P_, "vg25/gamma_f", "Dn50- Hm0+ smm10-")
mono(P_, "vg25/gamma_b", "BL+ Ac-")
mono(P_, "vg25/gamma_beta", "beta-", box=dict(beta=(0.0, 90.0)))
mono(P_, "vg25/gamma_v", "Rc+ Ac-")
mono(P_, "vg25/gamma_w", "Rc+ Ac- Hm0- q_diml-")
mono(P_, "taw/gamma_v", "alpha_wall_deg-")
mono(P_, "velocity2002", "Hs+ zXp+ Rc- Bc- gamma_f_Crest+ gamma_f-")
for k in ("permeable", "impermeable"):
    mono(P_, "Kt/dangremond/" + k, "Rc- B- Tpi+ cot_alpha-")
mono(P_, "Kt/briganti", "Rc- Tpi+ cot_alpha-")
for st in ("impermeable", "permeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen"):
    mono(P_, "Kt/vangent2023/" + st, "Rc- B- Tmm10+")
mono(P_, "setup/permeable", "Hm0+ Rc+ hc- Tmm10-")
mono(P_, "setup/impermeable", "Rc+ Tmm10-")
