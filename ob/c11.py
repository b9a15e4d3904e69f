"""C11 - monotone response of armour, toe, rear-slope and force results"""
from ob._mono import *

P_ = "C11"
LIST = {
    "physics/s": "H+ T-",
    "physics/ksi": "H- T+ cot_alpha-",
    "physics/Ns": "H+ D- rho_rock- rho_water+",
    "physics/Delta": "rho_rock+ rho_water-",
    "physics/M50": "Dn50+ rho_rock+",
    "physics/Dn50": "M50+ rho_rock-",
    "physics/S": "Nod+ G- nv+",
    "physics/Nod": "S+ G+ nv-",
    "hudson/M50-nodamage": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "hudson/Hs-nodamage": "rho_water- rho_armour+ KD+ cot_alpha+ M50+",
    "hudson/M50/rough": "rho_water+ rho_armour- KD- cot_alpha- Hs+ damage_percentage-",
    "hudson/Hs/rough": "rho_water- rho_armour+ KD+ cot_alpha+ M50+ damage_percentage+",
    "hudson/M50/smooth": "rho_water+ rho_armour- KD- cot_alpha- Hs+ damage_percentage-",
    "hudson/Hs/smooth": "rho_water- rho_armour+ KD+ cot_alpha+ M50+ damage_percentage+",
    "vandermeer1988/S": "rho_armour- Dn50- H2p+ rho_water+",
    "vandermeer1988/S/mass": "rho_armour- M50- H2p+ rho_water+",
    "vandermeer1988/Dn50": "rho_armour- S- H2p+ rho_water+",
    "vandermeer1988/Hs": "rho_armour+ S+ Dn50+ ratio_H2p_Hs- rho_water-",
    "vandermeer1988_modified/S": "rho_armour- Dn50- H2p+ rho_water+",
    "vandermeer1988_modified/S/mass": "rho_armour- M50- H2p+ rho_water+",
    "vandermeer1988_modified/Dn50": "rho_armour- S- H2p+ rho_water+",
    "vandermeer1988_modified/Hs": "rho_armour+ S+ Dn50+ ratio_H2p_Hs- rho_water-",
    "vandermeer2021/S": "rho_armour- Dn50- Hs+",
    "vandermeer2021/S/mass": "rho_armour- M50- Hs+",
    "vandermeer2021/Dn50": "rho_armour- S- Hs+",
    "vandermeer2021/Hs": "rho_armour+ S+ Dn50+",
    "etemad2020/S": "N_waves+ rho_armour- Hs+ Dn50- rho_water+ Dn50_core-",
    "etemad2020/S/mass": "N_waves+ rho_armour- Hs+ M50- M50_core- rho_core+",
    "etemad2020/S/depth": "N_waves+ rho_armour- Hs+ Dn50- m+ Dn50_core-",
    "etemad2020/Cp": "Dn50- Dn50_core+",
    "jumelet/S": "rho_armour- Dn50- rho_water+",
    "jumelet/Dn50": "rho_armour- S-",
    "kramer/Hs": "rho_armour+",
    "scaravaglione/S": "Tmm10+ N_waves+ cot_alpha- rho_armour- rho_water+ Hm0+ Dn50- Dn50_core-",
    "scaravaglione/S/mass": "Tmm10+ N_waves+ cot_alpha- rho_armour- rho_core+ rho_water+ Hm0+ M50- M50_core-",
    "scaravaglione/Dn50": "Tmm10+ N_waves+ cot_alpha- rho_armour- rho_water+ Hm0+ S- Dn50_core-",
    "scaravaglione/Hm0": "Tmm10- N_waves- cot_alpha+ rho_armour+ rho_water- S+ Dn50+ Dn50_core+",
    "rear2007/S": "cot_alpha- cot_phi+ gamma+ Hs+ Tmm10+ Rc2_front- Rc2_rear+ N_waves+ Dn50-",
    "rear2007/Dn50": "cot_alpha- cot_phi+ gamma+ Hs+ Tmm10+ Rc2_front- Rc2_rear+ N_waves+ S-",
    "rear2004/S": "cot_alpha- cot_phi- gamma_f+ gamma_f_Crest+ Hs+ Tmm10+ Rc- Rc_rear- Bc- N_waves+ rho_rock- Dn50- rho_water+",
    "rear2004/Dn50": "cot_alpha- cot_phi- gamma_f+ gamma_f_Crest+ Hs+ Tmm10+ Rc- Rc_rear- Bc- N_waves+ rho_rock- S- rho_water+",
    "gerding1993/Nod": "rho_rock- rho_water+ Hs+ ht- Dn50-",
    "gerding1993/Dn50": "rho_rock- rho_water+ Hs+ ht- Nod-",
    "gerding1993/Hs": "rho_rock+ rho_water- Dn50+ ht+ Nod+",
    "vandermeer1998/Nod": "rho_rock- rho_water+ h+ Hs+ ht- Dn50-",
    "vandermeer1998/Dn50": "rho_rock- rho_water+ h+ Hs+ ht- Nod-",
    "vandermeer1998/Hs": "rho_rock+ rho_water- h- Dn50+ ht+ Nod+",
    "vgvdw2014/u": "Hs+ Tmm10+ ht-",
    "vgvdw2014/Nod": "rho_rock- rho_water+ Hm0+ Tmm10+ ht- Bt+ tt+ Dn50-",
    "vgvdw2014/Dn50": "rho_rock- rho_water+ Hm0+ Tmm10+ ht- Bt+ tt+ Nod-",
    "etemad2021/Nod": "rho_rock- rho_water+ Hs+ Tmm10+ h+ ht- Bt+ m+ Dn50-",
    "etemad2021/Dn50": "rho_rock- rho_water+ Hs+ Tmm10+ h+ ht- Bt+ m+ Nod-",
    "takahashi/Dn50": "rho_rock- rho_water+",
    "accropode2/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "accropode2/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "accropode/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "accropode/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "core_loc/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "core_loc/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "cubes_double_layer/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "cubes_double_layer/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "cubipod/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "cubipod/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "tetrapod/M": "rho_water+ rho_armour- KD- cot_alpha- Hs+",
    "tetrapod/Hs": "rho_water- rho_armour+ KD+ cot_alpha+ M+",
    "cubes1988/Dn": "rho_water+ rho_armour- N_waves+ Hs+ Tm- Nod-",
    "cubes1988/Hs": "rho_water- rho_armour+ N_waves- Dn+ s0m- Nod+",
    "cubes1988/Nod": "rho_water+ rho_armour- N_waves+ Hs+ Dn- s0m+",
    "cubes2002/M/start_of_damage": "rho_water+ rho_armour- Hs+",
    "cubes2002/Hs/start_of_damage": "rho_water- rho_armour+ M+",
    "cubes2002/M/failure": "rho_water+ rho_armour- Hs+",
    "cubes2002/Hs/failure": "rho_water- rho_armour+ M+",
    "xbloc/Hs-V": "rho_water- rho_armour+ total_correction_factor- V+",
    "xbloc/Hs-M": "rho_water- rho_armour+ total_correction_factor- M+",
    "xbloc/V": "rho_water+ rho_armour- total_correction_factor+ Hs+",
    "xbloc/M": "rho_water+ rho_armour- total_correction_factor+ Hs+",
    "xbloc/seabed-cot": "cot_alpha-",
    "xbloc/seabed-perc": "perc_slope+",
    "xbloc/freeboard": "rel_freeboard-",
    "xblocplus/Hs-V": "rho_water- rho_armour+ total_correction_factor- V+",
    "xblocplus/Hs-M": "rho_water- rho_armour+ total_correction_factor- M+",
    "xblocplus/V": "rho_water+ rho_armour- total_correction_factor+ Hs+",
    "xblocplus/M": "rho_water+ rho_armour- total_correction_factor+ Hs+",
    "xblocplus/seabed-cot": "cot_alpha-",
    "xblocplus/seabed-perc": "perc_slope+",
    "xblocplus/freeboard": "rel_freeboard-",
    "xbloc/depth": "rel_depth+",
    "goda/Wup": "hacc+ Rc+ Bup+ rho_fill_below_SWL+ rho_water- rho_fill_above_SWL+",
    "crestwall/FH": "Hm0+ Tmm10+ cot_alpha- Ac- gamma_f+ Hwall+",
    "crestwall/FV": "Hm0+ Tmm10+ cot_alpha- gamma_f+ Bwall+",
    "crestwall/FH-oblique": "Hm0+ Tmm10+ cot_alpha- Ac- gamma_f+ beta- Hwall+",
    "crestwall/FV-oblique": "Hm0+ Tmm10+ cot_alpha- gamma_f+ beta- Bwall+",
}
for k, s in LIST.items():
    mono(P_, k, s)


# base level of the crest element below the crest of the armour (at equality the force is zero)
def below(M, Fb, Ac, **k):
    M.assume(Fb <= 0.999 * Ac)


for k in ("crestwall/FV", "crestwall/FV-oblique"):
    mono(P_, k, "Fb-", pre=below)

# the storm-duration factor of Van der Meer (1988) changes form at 5000 waves (published step): within each regime
for v in ("vandermeer1988", "vandermeer1988_modified", "vandermeer2021"):
    for r, sg in (("S", "+"), ("S/mass", "+"), ("Dn50", "+"), ("Hs", "-")):
        k = "%s/%s" % (v, r)
        if k != "vandermeer1988/Hs":
            mono(P_, k, "N_waves" + sg, box=dict(N_waves=(100.0, 5000.0)), name=k + "/short")
        mono(P_, k, "N_waves" + sg, box=dict(N_waves=(5001.0, 20000.0)), name=k + "/long")


# the stability formula of Etemad-Shahidi changes at a breaker parameter of 1.8 (published step): within each regime
def ksi18(lo):
    def pre(M, Hs, Tmm10, cot_alpha, **k):
        ksi2 = 9.81 * Tmm10 * Tmm10 / (2.0 * M.pi * Hs * cot_alpha * cot_alpha)
        M.assume(ksi2 <= 3.2 if lo else ksi2 >= 3.3)
    return pre


for k in ("etemad2020/S", "etemad2020/S/mass", "etemad2020/S/depth"):
    for lo in (True, False):
        mono(P_, k, "Tmm10+ cot_alpha-", pre=ksi18(lo), name=k + ("/plunging" if lo else "/surging"))
