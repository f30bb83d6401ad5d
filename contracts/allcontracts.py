import builders, c_spla, c_cone, c_ecos, e2e_solve
import c_equil
import c_exp
import e2e_bb, c_bb
import e2e_int
import c_ctrlc
import c_ldl
import e2e_kkt
import c_kkt
