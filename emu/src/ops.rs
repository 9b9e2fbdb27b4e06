cfg_has_atomic_8! { m_load! { i8; load_i8_r pload_i8_r Relaxed, load_i8_a pload_i8_a Acquire, load_i8_s pload_i8_s SeqCst, } m_store! { i8; store_i8_r pstore_i8_r Relaxed, store_i8_l pstore_i8_l Release, store_i8_s pstore_i8_s SeqCst, } }
cfg_has_atomic_8! { cfg_has_atomic_cas! { m_swap! { i8; swap_i8_r pswap_i8_r Relaxed, swap_i8_a pswap_i8_a Acquire, swap_i8_l pswap_i8_l Release, swap_i8_x pswap_i8_x AcqRel, swap_i8_s pswap_i8_s SeqCst, } m_cas! { i8; cas_i8_rr weak_i8_rr pcas_i8_rr pweak_i8_rr Relaxed Relaxed, cas_i8_ra weak_i8_ra pcas_i8_ra pweak_i8_ra Relaxed Acquire, cas_i8_rs weak_i8_rs pcas_i8_rs pweak_i8_rs Relaxed SeqCst, cas_i8_ar weak_i8_ar pcas_i8_ar pweak_i8_ar Acquire Relaxed, cas_i8_aa weak_i8_aa pcas_i8_aa pweak_i8_aa Acquire Acquire, cas_i8_as weak_i8_as pcas_i8_as pweak_i8_as Acquire SeqCst, cas_i8_lr weak_i8_lr pcas_i8_lr pweak_i8_lr Release Relaxed, cas_i8_la weak_i8_la pcas_i8_la pweak_i8_la Release Acquire, cas_i8_ls weak_i8_ls pcas_i8_ls pweak_i8_ls Release SeqCst, cas_i8_xr weak_i8_xr pcas_i8_xr pweak_i8_xr AcqRel Relaxed, cas_i8_xa weak_i8_xa pcas_i8_xa pweak_i8_xa AcqRel Acquire, cas_i8_xs weak_i8_xs pcas_i8_xs pweak_i8_xs AcqRel SeqCst, cas_i8_sr weak_i8_sr pcas_i8_sr pweak_i8_sr SeqCst Relaxed, cas_i8_sa weak_i8_sa pcas_i8_sa pweak_i8_sa SeqCst Acquire, cas_i8_ss weak_i8_ss pcas_i8_ss pweak_i8_ss SeqCst SeqCst, } } }
cfg_has_atomic_8! { cfg_has_atomic_cas! { fu! { i8; fu_i8_rr Relaxed Relaxed, fu_i8_xa AcqRel Acquire, fu_i8_ss SeqCst SeqCst, } fc! { i8; fc_i8_rr Relaxed Relaxed, fc_i8_ra Relaxed Acquire, fc_i8_la Release Acquire, fc_i8_ar Acquire Relaxed, fc_i8_ss SeqCst SeqCst, } } }
cfg_has_atomic_8! { r_load! { u8; load_u8_r pload_u8_r Relaxed, load_u8_a pload_u8_a Acquire, load_u8_s pload_u8_s SeqCst, } r_store! { u8; store_u8_r pstore_u8_r Relaxed, store_u8_l pstore_u8_l Release, store_u8_s pstore_u8_s SeqCst, } }
cfg_has_atomic_8! { cfg_has_atomic_cas! { r_swap! { u8; swap_u8_r pswap_u8_r Relaxed, swap_u8_a pswap_u8_a Acquire, swap_u8_l pswap_u8_l Release, swap_u8_x pswap_u8_x AcqRel, swap_u8_s pswap_u8_s SeqCst, } r_cas! { u8; cas_u8_rr weak_u8_rr pcas_u8_rr pweak_u8_rr Relaxed Relaxed, cas_u8_ra weak_u8_ra pcas_u8_ra pweak_u8_ra Relaxed Acquire, cas_u8_rs weak_u8_rs pcas_u8_rs pweak_u8_rs Relaxed SeqCst, cas_u8_ar weak_u8_ar pcas_u8_ar pweak_u8_ar Acquire Relaxed, cas_u8_aa weak_u8_aa pcas_u8_aa pweak_u8_aa Acquire Acquire, cas_u8_as weak_u8_as pcas_u8_as pweak_u8_as Acquire SeqCst, cas_u8_lr weak_u8_lr pcas_u8_lr pweak_u8_lr Release Relaxed, cas_u8_la weak_u8_la pcas_u8_la pweak_u8_la Release Acquire, cas_u8_ls weak_u8_ls pcas_u8_ls pweak_u8_ls Release SeqCst, cas_u8_xr weak_u8_xr pcas_u8_xr pweak_u8_xr AcqRel Relaxed, cas_u8_xa weak_u8_xa pcas_u8_xa pweak_u8_xa AcqRel Acquire, cas_u8_xs weak_u8_xs pcas_u8_xs pweak_u8_xs AcqRel SeqCst, cas_u8_sr weak_u8_sr pcas_u8_sr pweak_u8_sr SeqCst Relaxed, cas_u8_sa weak_u8_sa pcas_u8_sa pweak_u8_sa SeqCst Acquire, cas_u8_ss weak_u8_ss pcas_u8_ss pweak_u8_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_8! { m_load! { u8; nload_u8_r nload_u8_r Relaxed, nload_u8_a nload_u8_a Acquire, nload_u8_s nload_u8_s SeqCst, } m_store! { u8; nstore_u8_r nstore_u8_r Relaxed, nstore_u8_l nstore_u8_l Release, nstore_u8_s nstore_u8_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_8! { cfg_has_atomic_cas! { m_swap! { u8; nswap_u8_r nswap_u8_r Relaxed, nswap_u8_a nswap_u8_a Acquire, nswap_u8_l nswap_u8_l Release, nswap_u8_x nswap_u8_x AcqRel, nswap_u8_s nswap_u8_s SeqCst, } m_cas! { u8; ncas_u8_rr nweak_u8_rr n n Relaxed Relaxed, ncas_u8_ra nweak_u8_ra n n Relaxed Acquire, ncas_u8_rs nweak_u8_rs n n Relaxed SeqCst, ncas_u8_ar nweak_u8_ar n n Acquire Relaxed, ncas_u8_aa nweak_u8_aa n n Acquire Acquire, ncas_u8_as nweak_u8_as n n Acquire SeqCst, ncas_u8_lr nweak_u8_lr n n Release Relaxed, ncas_u8_la nweak_u8_la n n Release Acquire, ncas_u8_ls nweak_u8_ls n n Release SeqCst, ncas_u8_xr nweak_u8_xr n n AcqRel Relaxed, ncas_u8_xa nweak_u8_xa n n AcqRel Acquire, ncas_u8_xs nweak_u8_xs n n AcqRel SeqCst, ncas_u8_sr nweak_u8_sr n n SeqCst Relaxed, ncas_u8_sa nweak_u8_sa n n SeqCst Acquire, ncas_u8_ss nweak_u8_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_8! { x_load! { u8; qload_u8_r cload_u8_r tload_u8_r kload_u8_r zload_u8_r fload_u8_r Relaxed, qload_u8_a cload_u8_a tload_u8_a kload_u8_a zload_u8_a fload_u8_a Acquire, qload_u8_s cload_u8_s tload_u8_s kload_u8_s zload_u8_s fload_u8_s SeqCst, } x_store! { u8; qstore_u8_r cstore_u8_r tstore_u8_r kstore_u8_r zstore_u8_r fstore_u8_r Relaxed, qstore_u8_l cstore_u8_l tstore_u8_l kstore_u8_l zstore_u8_l fstore_u8_l Release, qstore_u8_s cstore_u8_s tstore_u8_s kstore_u8_s zstore_u8_s fstore_u8_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_8! { cfg_has_atomic_cas! { x_swap! { u8; qswap_u8_r cswap_u8_r tswap_u8_r kswap_u8_r zswap_u8_r fswap_u8_r Relaxed, qswap_u8_a cswap_u8_a tswap_u8_a kswap_u8_a zswap_u8_a fswap_u8_a Acquire, qswap_u8_l cswap_u8_l tswap_u8_l kswap_u8_l zswap_u8_l fswap_u8_l Release, qswap_u8_x cswap_u8_x tswap_u8_x kswap_u8_x zswap_u8_x fswap_u8_x AcqRel, qswap_u8_s cswap_u8_s tswap_u8_s kswap_u8_s zswap_u8_s fswap_u8_s SeqCst, } x_cas! { u8; qcas_u8_rr ccas_u8_rr tcas_u8_rr scas_u8_rr kcas_u8_rr zcas_u8_rr fcas_u8_rr Relaxed Relaxed, qcas_u8_ra ccas_u8_ra tcas_u8_ra scas_u8_ra kcas_u8_ra zcas_u8_ra fcas_u8_ra Relaxed Acquire, qcas_u8_rs ccas_u8_rs tcas_u8_rs scas_u8_rs kcas_u8_rs zcas_u8_rs fcas_u8_rs Relaxed SeqCst, qcas_u8_ar ccas_u8_ar tcas_u8_ar scas_u8_ar kcas_u8_ar zcas_u8_ar fcas_u8_ar Acquire Relaxed, qcas_u8_aa ccas_u8_aa tcas_u8_aa scas_u8_aa kcas_u8_aa zcas_u8_aa fcas_u8_aa Acquire Acquire, qcas_u8_as ccas_u8_as tcas_u8_as scas_u8_as kcas_u8_as zcas_u8_as fcas_u8_as Acquire SeqCst, qcas_u8_lr ccas_u8_lr tcas_u8_lr scas_u8_lr kcas_u8_lr zcas_u8_lr fcas_u8_lr Release Relaxed, qcas_u8_la ccas_u8_la tcas_u8_la scas_u8_la kcas_u8_la zcas_u8_la fcas_u8_la Release Acquire, qcas_u8_ls ccas_u8_ls tcas_u8_ls scas_u8_ls kcas_u8_ls zcas_u8_ls fcas_u8_ls Release SeqCst, qcas_u8_xr ccas_u8_xr tcas_u8_xr scas_u8_xr kcas_u8_xr zcas_u8_xr fcas_u8_xr AcqRel Relaxed, qcas_u8_xa ccas_u8_xa tcas_u8_xa scas_u8_xa kcas_u8_xa zcas_u8_xa fcas_u8_xa AcqRel Acquire, qcas_u8_xs ccas_u8_xs tcas_u8_xs scas_u8_xs kcas_u8_xs zcas_u8_xs fcas_u8_xs AcqRel SeqCst, qcas_u8_sr ccas_u8_sr tcas_u8_sr scas_u8_sr kcas_u8_sr zcas_u8_sr fcas_u8_sr SeqCst Relaxed, qcas_u8_sa ccas_u8_sa tcas_u8_sa scas_u8_sa kcas_u8_sa zcas_u8_sa fcas_u8_sa SeqCst Acquire, qcas_u8_ss ccas_u8_ss tcas_u8_ss scas_u8_ss kcas_u8_ss zcas_u8_ss fcas_u8_ss SeqCst SeqCst, } } }
cfg_has_atomic_8! { cfg_has_atomic_cas! { fu! { u8; fu_u8_rr Relaxed Relaxed, fu_u8_xa AcqRel Acquire, fu_u8_ss SeqCst SeqCst, } fc! { u8; fc_u8_rr Relaxed Relaxed, fc_u8_ra Relaxed Acquire, fc_u8_la Release Acquire, fc_u8_ar Acquire Relaxed, fc_u8_ss SeqCst SeqCst, } } }
cfg_has_atomic_16! { m_load! { i16; load_i16_r pload_i16_r Relaxed, load_i16_a pload_i16_a Acquire, load_i16_s pload_i16_s SeqCst, } m_store! { i16; store_i16_r pstore_i16_r Relaxed, store_i16_l pstore_i16_l Release, store_i16_s pstore_i16_s SeqCst, } }
cfg_has_atomic_16! { cfg_has_atomic_cas! { m_swap! { i16; swap_i16_r pswap_i16_r Relaxed, swap_i16_a pswap_i16_a Acquire, swap_i16_l pswap_i16_l Release, swap_i16_x pswap_i16_x AcqRel, swap_i16_s pswap_i16_s SeqCst, } m_cas! { i16; cas_i16_rr weak_i16_rr pcas_i16_rr pweak_i16_rr Relaxed Relaxed, cas_i16_ra weak_i16_ra pcas_i16_ra pweak_i16_ra Relaxed Acquire, cas_i16_rs weak_i16_rs pcas_i16_rs pweak_i16_rs Relaxed SeqCst, cas_i16_ar weak_i16_ar pcas_i16_ar pweak_i16_ar Acquire Relaxed, cas_i16_aa weak_i16_aa pcas_i16_aa pweak_i16_aa Acquire Acquire, cas_i16_as weak_i16_as pcas_i16_as pweak_i16_as Acquire SeqCst, cas_i16_lr weak_i16_lr pcas_i16_lr pweak_i16_lr Release Relaxed, cas_i16_la weak_i16_la pcas_i16_la pweak_i16_la Release Acquire, cas_i16_ls weak_i16_ls pcas_i16_ls pweak_i16_ls Release SeqCst, cas_i16_xr weak_i16_xr pcas_i16_xr pweak_i16_xr AcqRel Relaxed, cas_i16_xa weak_i16_xa pcas_i16_xa pweak_i16_xa AcqRel Acquire, cas_i16_xs weak_i16_xs pcas_i16_xs pweak_i16_xs AcqRel SeqCst, cas_i16_sr weak_i16_sr pcas_i16_sr pweak_i16_sr SeqCst Relaxed, cas_i16_sa weak_i16_sa pcas_i16_sa pweak_i16_sa SeqCst Acquire, cas_i16_ss weak_i16_ss pcas_i16_ss pweak_i16_ss SeqCst SeqCst, } } }
cfg_has_atomic_16! { cfg_has_atomic_cas! { fu! { i16; fu_i16_rr Relaxed Relaxed, fu_i16_xa AcqRel Acquire, fu_i16_ss SeqCst SeqCst, } fc! { i16; fc_i16_rr Relaxed Relaxed, fc_i16_ra Relaxed Acquire, fc_i16_la Release Acquire, fc_i16_ar Acquire Relaxed, fc_i16_ss SeqCst SeqCst, } } }
cfg_has_atomic_16! { r_load! { u16; load_u16_r pload_u16_r Relaxed, load_u16_a pload_u16_a Acquire, load_u16_s pload_u16_s SeqCst, } r_store! { u16; store_u16_r pstore_u16_r Relaxed, store_u16_l pstore_u16_l Release, store_u16_s pstore_u16_s SeqCst, } }
cfg_has_atomic_16! { cfg_has_atomic_cas! { r_swap! { u16; swap_u16_r pswap_u16_r Relaxed, swap_u16_a pswap_u16_a Acquire, swap_u16_l pswap_u16_l Release, swap_u16_x pswap_u16_x AcqRel, swap_u16_s pswap_u16_s SeqCst, } r_cas! { u16; cas_u16_rr weak_u16_rr pcas_u16_rr pweak_u16_rr Relaxed Relaxed, cas_u16_ra weak_u16_ra pcas_u16_ra pweak_u16_ra Relaxed Acquire, cas_u16_rs weak_u16_rs pcas_u16_rs pweak_u16_rs Relaxed SeqCst, cas_u16_ar weak_u16_ar pcas_u16_ar pweak_u16_ar Acquire Relaxed, cas_u16_aa weak_u16_aa pcas_u16_aa pweak_u16_aa Acquire Acquire, cas_u16_as weak_u16_as pcas_u16_as pweak_u16_as Acquire SeqCst, cas_u16_lr weak_u16_lr pcas_u16_lr pweak_u16_lr Release Relaxed, cas_u16_la weak_u16_la pcas_u16_la pweak_u16_la Release Acquire, cas_u16_ls weak_u16_ls pcas_u16_ls pweak_u16_ls Release SeqCst, cas_u16_xr weak_u16_xr pcas_u16_xr pweak_u16_xr AcqRel Relaxed, cas_u16_xa weak_u16_xa pcas_u16_xa pweak_u16_xa AcqRel Acquire, cas_u16_xs weak_u16_xs pcas_u16_xs pweak_u16_xs AcqRel SeqCst, cas_u16_sr weak_u16_sr pcas_u16_sr pweak_u16_sr SeqCst Relaxed, cas_u16_sa weak_u16_sa pcas_u16_sa pweak_u16_sa SeqCst Acquire, cas_u16_ss weak_u16_ss pcas_u16_ss pweak_u16_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_16! { m_load! { u16; nload_u16_r nload_u16_r Relaxed, nload_u16_a nload_u16_a Acquire, nload_u16_s nload_u16_s SeqCst, } m_store! { u16; nstore_u16_r nstore_u16_r Relaxed, nstore_u16_l nstore_u16_l Release, nstore_u16_s nstore_u16_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_16! { cfg_has_atomic_cas! { m_swap! { u16; nswap_u16_r nswap_u16_r Relaxed, nswap_u16_a nswap_u16_a Acquire, nswap_u16_l nswap_u16_l Release, nswap_u16_x nswap_u16_x AcqRel, nswap_u16_s nswap_u16_s SeqCst, } m_cas! { u16; ncas_u16_rr nweak_u16_rr n n Relaxed Relaxed, ncas_u16_ra nweak_u16_ra n n Relaxed Acquire, ncas_u16_rs nweak_u16_rs n n Relaxed SeqCst, ncas_u16_ar nweak_u16_ar n n Acquire Relaxed, ncas_u16_aa nweak_u16_aa n n Acquire Acquire, ncas_u16_as nweak_u16_as n n Acquire SeqCst, ncas_u16_lr nweak_u16_lr n n Release Relaxed, ncas_u16_la nweak_u16_la n n Release Acquire, ncas_u16_ls nweak_u16_ls n n Release SeqCst, ncas_u16_xr nweak_u16_xr n n AcqRel Relaxed, ncas_u16_xa nweak_u16_xa n n AcqRel Acquire, ncas_u16_xs nweak_u16_xs n n AcqRel SeqCst, ncas_u16_sr nweak_u16_sr n n SeqCst Relaxed, ncas_u16_sa nweak_u16_sa n n SeqCst Acquire, ncas_u16_ss nweak_u16_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_16! { x_load! { u16; qload_u16_r cload_u16_r tload_u16_r kload_u16_r zload_u16_r fload_u16_r Relaxed, qload_u16_a cload_u16_a tload_u16_a kload_u16_a zload_u16_a fload_u16_a Acquire, qload_u16_s cload_u16_s tload_u16_s kload_u16_s zload_u16_s fload_u16_s SeqCst, } x_store! { u16; qstore_u16_r cstore_u16_r tstore_u16_r kstore_u16_r zstore_u16_r fstore_u16_r Relaxed, qstore_u16_l cstore_u16_l tstore_u16_l kstore_u16_l zstore_u16_l fstore_u16_l Release, qstore_u16_s cstore_u16_s tstore_u16_s kstore_u16_s zstore_u16_s fstore_u16_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_16! { cfg_has_atomic_cas! { x_swap! { u16; qswap_u16_r cswap_u16_r tswap_u16_r kswap_u16_r zswap_u16_r fswap_u16_r Relaxed, qswap_u16_a cswap_u16_a tswap_u16_a kswap_u16_a zswap_u16_a fswap_u16_a Acquire, qswap_u16_l cswap_u16_l tswap_u16_l kswap_u16_l zswap_u16_l fswap_u16_l Release, qswap_u16_x cswap_u16_x tswap_u16_x kswap_u16_x zswap_u16_x fswap_u16_x AcqRel, qswap_u16_s cswap_u16_s tswap_u16_s kswap_u16_s zswap_u16_s fswap_u16_s SeqCst, } x_cas! { u16; qcas_u16_rr ccas_u16_rr tcas_u16_rr scas_u16_rr kcas_u16_rr zcas_u16_rr fcas_u16_rr Relaxed Relaxed, qcas_u16_ra ccas_u16_ra tcas_u16_ra scas_u16_ra kcas_u16_ra zcas_u16_ra fcas_u16_ra Relaxed Acquire, qcas_u16_rs ccas_u16_rs tcas_u16_rs scas_u16_rs kcas_u16_rs zcas_u16_rs fcas_u16_rs Relaxed SeqCst, qcas_u16_ar ccas_u16_ar tcas_u16_ar scas_u16_ar kcas_u16_ar zcas_u16_ar fcas_u16_ar Acquire Relaxed, qcas_u16_aa ccas_u16_aa tcas_u16_aa scas_u16_aa kcas_u16_aa zcas_u16_aa fcas_u16_aa Acquire Acquire, qcas_u16_as ccas_u16_as tcas_u16_as scas_u16_as kcas_u16_as zcas_u16_as fcas_u16_as Acquire SeqCst, qcas_u16_lr ccas_u16_lr tcas_u16_lr scas_u16_lr kcas_u16_lr zcas_u16_lr fcas_u16_lr Release Relaxed, qcas_u16_la ccas_u16_la tcas_u16_la scas_u16_la kcas_u16_la zcas_u16_la fcas_u16_la Release Acquire, qcas_u16_ls ccas_u16_ls tcas_u16_ls scas_u16_ls kcas_u16_ls zcas_u16_ls fcas_u16_ls Release SeqCst, qcas_u16_xr ccas_u16_xr tcas_u16_xr scas_u16_xr kcas_u16_xr zcas_u16_xr fcas_u16_xr AcqRel Relaxed, qcas_u16_xa ccas_u16_xa tcas_u16_xa scas_u16_xa kcas_u16_xa zcas_u16_xa fcas_u16_xa AcqRel Acquire, qcas_u16_xs ccas_u16_xs tcas_u16_xs scas_u16_xs kcas_u16_xs zcas_u16_xs fcas_u16_xs AcqRel SeqCst, qcas_u16_sr ccas_u16_sr tcas_u16_sr scas_u16_sr kcas_u16_sr zcas_u16_sr fcas_u16_sr SeqCst Relaxed, qcas_u16_sa ccas_u16_sa tcas_u16_sa scas_u16_sa kcas_u16_sa zcas_u16_sa fcas_u16_sa SeqCst Acquire, qcas_u16_ss ccas_u16_ss tcas_u16_ss scas_u16_ss kcas_u16_ss zcas_u16_ss fcas_u16_ss SeqCst SeqCst, } } }
cfg_has_atomic_16! { cfg_has_atomic_cas! { fu! { u16; fu_u16_rr Relaxed Relaxed, fu_u16_xa AcqRel Acquire, fu_u16_ss SeqCst SeqCst, } fc! { u16; fc_u16_rr Relaxed Relaxed, fc_u16_ra Relaxed Acquire, fc_u16_la Release Acquire, fc_u16_ar Acquire Relaxed, fc_u16_ss SeqCst SeqCst, } } }
cfg_has_atomic_32! { m_load! { i32; load_i32_r pload_i32_r Relaxed, load_i32_a pload_i32_a Acquire, load_i32_s pload_i32_s SeqCst, } m_store! { i32; store_i32_r pstore_i32_r Relaxed, store_i32_l pstore_i32_l Release, store_i32_s pstore_i32_s SeqCst, } }
cfg_has_atomic_32! { cfg_has_atomic_cas! { m_swap! { i32; swap_i32_r pswap_i32_r Relaxed, swap_i32_a pswap_i32_a Acquire, swap_i32_l pswap_i32_l Release, swap_i32_x pswap_i32_x AcqRel, swap_i32_s pswap_i32_s SeqCst, } m_cas! { i32; cas_i32_rr weak_i32_rr pcas_i32_rr pweak_i32_rr Relaxed Relaxed, cas_i32_ra weak_i32_ra pcas_i32_ra pweak_i32_ra Relaxed Acquire, cas_i32_rs weak_i32_rs pcas_i32_rs pweak_i32_rs Relaxed SeqCst, cas_i32_ar weak_i32_ar pcas_i32_ar pweak_i32_ar Acquire Relaxed, cas_i32_aa weak_i32_aa pcas_i32_aa pweak_i32_aa Acquire Acquire, cas_i32_as weak_i32_as pcas_i32_as pweak_i32_as Acquire SeqCst, cas_i32_lr weak_i32_lr pcas_i32_lr pweak_i32_lr Release Relaxed, cas_i32_la weak_i32_la pcas_i32_la pweak_i32_la Release Acquire, cas_i32_ls weak_i32_ls pcas_i32_ls pweak_i32_ls Release SeqCst, cas_i32_xr weak_i32_xr pcas_i32_xr pweak_i32_xr AcqRel Relaxed, cas_i32_xa weak_i32_xa pcas_i32_xa pweak_i32_xa AcqRel Acquire, cas_i32_xs weak_i32_xs pcas_i32_xs pweak_i32_xs AcqRel SeqCst, cas_i32_sr weak_i32_sr pcas_i32_sr pweak_i32_sr SeqCst Relaxed, cas_i32_sa weak_i32_sa pcas_i32_sa pweak_i32_sa SeqCst Acquire, cas_i32_ss weak_i32_ss pcas_i32_ss pweak_i32_ss SeqCst SeqCst, } } }
cfg_has_atomic_32! { cfg_has_atomic_cas! { fu! { i32; fu_i32_rr Relaxed Relaxed, fu_i32_xa AcqRel Acquire, fu_i32_ss SeqCst SeqCst, } fc! { i32; fc_i32_rr Relaxed Relaxed, fc_i32_ra Relaxed Acquire, fc_i32_la Release Acquire, fc_i32_ar Acquire Relaxed, fc_i32_ss SeqCst SeqCst, } } }
cfg_has_atomic_32! { r_load! { u32; load_u32_r pload_u32_r Relaxed, load_u32_a pload_u32_a Acquire, load_u32_s pload_u32_s SeqCst, } r_store! { u32; store_u32_r pstore_u32_r Relaxed, store_u32_l pstore_u32_l Release, store_u32_s pstore_u32_s SeqCst, } }
cfg_has_atomic_32! { cfg_has_atomic_cas! { r_swap! { u32; swap_u32_r pswap_u32_r Relaxed, swap_u32_a pswap_u32_a Acquire, swap_u32_l pswap_u32_l Release, swap_u32_x pswap_u32_x AcqRel, swap_u32_s pswap_u32_s SeqCst, } r_cas! { u32; cas_u32_rr weak_u32_rr pcas_u32_rr pweak_u32_rr Relaxed Relaxed, cas_u32_ra weak_u32_ra pcas_u32_ra pweak_u32_ra Relaxed Acquire, cas_u32_rs weak_u32_rs pcas_u32_rs pweak_u32_rs Relaxed SeqCst, cas_u32_ar weak_u32_ar pcas_u32_ar pweak_u32_ar Acquire Relaxed, cas_u32_aa weak_u32_aa pcas_u32_aa pweak_u32_aa Acquire Acquire, cas_u32_as weak_u32_as pcas_u32_as pweak_u32_as Acquire SeqCst, cas_u32_lr weak_u32_lr pcas_u32_lr pweak_u32_lr Release Relaxed, cas_u32_la weak_u32_la pcas_u32_la pweak_u32_la Release Acquire, cas_u32_ls weak_u32_ls pcas_u32_ls pweak_u32_ls Release SeqCst, cas_u32_xr weak_u32_xr pcas_u32_xr pweak_u32_xr AcqRel Relaxed, cas_u32_xa weak_u32_xa pcas_u32_xa pweak_u32_xa AcqRel Acquire, cas_u32_xs weak_u32_xs pcas_u32_xs pweak_u32_xs AcqRel SeqCst, cas_u32_sr weak_u32_sr pcas_u32_sr pweak_u32_sr SeqCst Relaxed, cas_u32_sa weak_u32_sa pcas_u32_sa pweak_u32_sa SeqCst Acquire, cas_u32_ss weak_u32_ss pcas_u32_ss pweak_u32_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_32! { m_load! { u32; nload_u32_r nload_u32_r Relaxed, nload_u32_a nload_u32_a Acquire, nload_u32_s nload_u32_s SeqCst, } m_store! { u32; nstore_u32_r nstore_u32_r Relaxed, nstore_u32_l nstore_u32_l Release, nstore_u32_s nstore_u32_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_32! { cfg_has_atomic_cas! { m_swap! { u32; nswap_u32_r nswap_u32_r Relaxed, nswap_u32_a nswap_u32_a Acquire, nswap_u32_l nswap_u32_l Release, nswap_u32_x nswap_u32_x AcqRel, nswap_u32_s nswap_u32_s SeqCst, } m_cas! { u32; ncas_u32_rr nweak_u32_rr n n Relaxed Relaxed, ncas_u32_ra nweak_u32_ra n n Relaxed Acquire, ncas_u32_rs nweak_u32_rs n n Relaxed SeqCst, ncas_u32_ar nweak_u32_ar n n Acquire Relaxed, ncas_u32_aa nweak_u32_aa n n Acquire Acquire, ncas_u32_as nweak_u32_as n n Acquire SeqCst, ncas_u32_lr nweak_u32_lr n n Release Relaxed, ncas_u32_la nweak_u32_la n n Release Acquire, ncas_u32_ls nweak_u32_ls n n Release SeqCst, ncas_u32_xr nweak_u32_xr n n AcqRel Relaxed, ncas_u32_xa nweak_u32_xa n n AcqRel Acquire, ncas_u32_xs nweak_u32_xs n n AcqRel SeqCst, ncas_u32_sr nweak_u32_sr n n SeqCst Relaxed, ncas_u32_sa nweak_u32_sa n n SeqCst Acquire, ncas_u32_ss nweak_u32_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_32! { x_load! { u32; qload_u32_r cload_u32_r tload_u32_r kload_u32_r zload_u32_r fload_u32_r Relaxed, qload_u32_a cload_u32_a tload_u32_a kload_u32_a zload_u32_a fload_u32_a Acquire, qload_u32_s cload_u32_s tload_u32_s kload_u32_s zload_u32_s fload_u32_s SeqCst, } x_store! { u32; qstore_u32_r cstore_u32_r tstore_u32_r kstore_u32_r zstore_u32_r fstore_u32_r Relaxed, qstore_u32_l cstore_u32_l tstore_u32_l kstore_u32_l zstore_u32_l fstore_u32_l Release, qstore_u32_s cstore_u32_s tstore_u32_s kstore_u32_s zstore_u32_s fstore_u32_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_32! { cfg_has_atomic_cas! { x_swap! { u32; qswap_u32_r cswap_u32_r tswap_u32_r kswap_u32_r zswap_u32_r fswap_u32_r Relaxed, qswap_u32_a cswap_u32_a tswap_u32_a kswap_u32_a zswap_u32_a fswap_u32_a Acquire, qswap_u32_l cswap_u32_l tswap_u32_l kswap_u32_l zswap_u32_l fswap_u32_l Release, qswap_u32_x cswap_u32_x tswap_u32_x kswap_u32_x zswap_u32_x fswap_u32_x AcqRel, qswap_u32_s cswap_u32_s tswap_u32_s kswap_u32_s zswap_u32_s fswap_u32_s SeqCst, } x_cas! { u32; qcas_u32_rr ccas_u32_rr tcas_u32_rr scas_u32_rr kcas_u32_rr zcas_u32_rr fcas_u32_rr Relaxed Relaxed, qcas_u32_ra ccas_u32_ra tcas_u32_ra scas_u32_ra kcas_u32_ra zcas_u32_ra fcas_u32_ra Relaxed Acquire, qcas_u32_rs ccas_u32_rs tcas_u32_rs scas_u32_rs kcas_u32_rs zcas_u32_rs fcas_u32_rs Relaxed SeqCst, qcas_u32_ar ccas_u32_ar tcas_u32_ar scas_u32_ar kcas_u32_ar zcas_u32_ar fcas_u32_ar Acquire Relaxed, qcas_u32_aa ccas_u32_aa tcas_u32_aa scas_u32_aa kcas_u32_aa zcas_u32_aa fcas_u32_aa Acquire Acquire, qcas_u32_as ccas_u32_as tcas_u32_as scas_u32_as kcas_u32_as zcas_u32_as fcas_u32_as Acquire SeqCst, qcas_u32_lr ccas_u32_lr tcas_u32_lr scas_u32_lr kcas_u32_lr zcas_u32_lr fcas_u32_lr Release Relaxed, qcas_u32_la ccas_u32_la tcas_u32_la scas_u32_la kcas_u32_la zcas_u32_la fcas_u32_la Release Acquire, qcas_u32_ls ccas_u32_ls tcas_u32_ls scas_u32_ls kcas_u32_ls zcas_u32_ls fcas_u32_ls Release SeqCst, qcas_u32_xr ccas_u32_xr tcas_u32_xr scas_u32_xr kcas_u32_xr zcas_u32_xr fcas_u32_xr AcqRel Relaxed, qcas_u32_xa ccas_u32_xa tcas_u32_xa scas_u32_xa kcas_u32_xa zcas_u32_xa fcas_u32_xa AcqRel Acquire, qcas_u32_xs ccas_u32_xs tcas_u32_xs scas_u32_xs kcas_u32_xs zcas_u32_xs fcas_u32_xs AcqRel SeqCst, qcas_u32_sr ccas_u32_sr tcas_u32_sr scas_u32_sr kcas_u32_sr zcas_u32_sr fcas_u32_sr SeqCst Relaxed, qcas_u32_sa ccas_u32_sa tcas_u32_sa scas_u32_sa kcas_u32_sa zcas_u32_sa fcas_u32_sa SeqCst Acquire, qcas_u32_ss ccas_u32_ss tcas_u32_ss scas_u32_ss kcas_u32_ss zcas_u32_ss fcas_u32_ss SeqCst SeqCst, } } }
cfg_has_atomic_32! { cfg_has_atomic_cas! { fu! { u32; fu_u32_rr Relaxed Relaxed, fu_u32_xa AcqRel Acquire, fu_u32_ss SeqCst SeqCst, } fc! { u32; fc_u32_rr Relaxed Relaxed, fc_u32_ra Relaxed Acquire, fc_u32_la Release Acquire, fc_u32_ar Acquire Relaxed, fc_u32_ss SeqCst SeqCst, } } }
cfg_has_atomic_64! { m_load! { i64; load_i64_r pload_i64_r Relaxed, load_i64_a pload_i64_a Acquire, load_i64_s pload_i64_s SeqCst, } m_store! { i64; store_i64_r pstore_i64_r Relaxed, store_i64_l pstore_i64_l Release, store_i64_s pstore_i64_s SeqCst, } }
cfg_has_atomic_64! { cfg_has_atomic_cas! { m_swap! { i64; swap_i64_r pswap_i64_r Relaxed, swap_i64_a pswap_i64_a Acquire, swap_i64_l pswap_i64_l Release, swap_i64_x pswap_i64_x AcqRel, swap_i64_s pswap_i64_s SeqCst, } m_cas! { i64; cas_i64_rr weak_i64_rr pcas_i64_rr pweak_i64_rr Relaxed Relaxed, cas_i64_ra weak_i64_ra pcas_i64_ra pweak_i64_ra Relaxed Acquire, cas_i64_rs weak_i64_rs pcas_i64_rs pweak_i64_rs Relaxed SeqCst, cas_i64_ar weak_i64_ar pcas_i64_ar pweak_i64_ar Acquire Relaxed, cas_i64_aa weak_i64_aa pcas_i64_aa pweak_i64_aa Acquire Acquire, cas_i64_as weak_i64_as pcas_i64_as pweak_i64_as Acquire SeqCst, cas_i64_lr weak_i64_lr pcas_i64_lr pweak_i64_lr Release Relaxed, cas_i64_la weak_i64_la pcas_i64_la pweak_i64_la Release Acquire, cas_i64_ls weak_i64_ls pcas_i64_ls pweak_i64_ls Release SeqCst, cas_i64_xr weak_i64_xr pcas_i64_xr pweak_i64_xr AcqRel Relaxed, cas_i64_xa weak_i64_xa pcas_i64_xa pweak_i64_xa AcqRel Acquire, cas_i64_xs weak_i64_xs pcas_i64_xs pweak_i64_xs AcqRel SeqCst, cas_i64_sr weak_i64_sr pcas_i64_sr pweak_i64_sr SeqCst Relaxed, cas_i64_sa weak_i64_sa pcas_i64_sa pweak_i64_sa SeqCst Acquire, cas_i64_ss weak_i64_ss pcas_i64_ss pweak_i64_ss SeqCst SeqCst, } } }
cfg_has_atomic_64! { cfg_has_atomic_cas! { fu! { i64; fu_i64_rr Relaxed Relaxed, fu_i64_xa AcqRel Acquire, fu_i64_ss SeqCst SeqCst, } fc! { i64; fc_i64_rr Relaxed Relaxed, fc_i64_ra Relaxed Acquire, fc_i64_la Release Acquire, fc_i64_ar Acquire Relaxed, fc_i64_ss SeqCst SeqCst, } } }
cfg_has_atomic_64! { r_load! { u64; load_u64_r pload_u64_r Relaxed, load_u64_a pload_u64_a Acquire, load_u64_s pload_u64_s SeqCst, } r_store! { u64; store_u64_r pstore_u64_r Relaxed, store_u64_l pstore_u64_l Release, store_u64_s pstore_u64_s SeqCst, } }
cfg_has_atomic_64! { cfg_has_atomic_cas! { r_swap! { u64; swap_u64_r pswap_u64_r Relaxed, swap_u64_a pswap_u64_a Acquire, swap_u64_l pswap_u64_l Release, swap_u64_x pswap_u64_x AcqRel, swap_u64_s pswap_u64_s SeqCst, } r_cas! { u64; cas_u64_rr weak_u64_rr pcas_u64_rr pweak_u64_rr Relaxed Relaxed, cas_u64_ra weak_u64_ra pcas_u64_ra pweak_u64_ra Relaxed Acquire, cas_u64_rs weak_u64_rs pcas_u64_rs pweak_u64_rs Relaxed SeqCst, cas_u64_ar weak_u64_ar pcas_u64_ar pweak_u64_ar Acquire Relaxed, cas_u64_aa weak_u64_aa pcas_u64_aa pweak_u64_aa Acquire Acquire, cas_u64_as weak_u64_as pcas_u64_as pweak_u64_as Acquire SeqCst, cas_u64_lr weak_u64_lr pcas_u64_lr pweak_u64_lr Release Relaxed, cas_u64_la weak_u64_la pcas_u64_la pweak_u64_la Release Acquire, cas_u64_ls weak_u64_ls pcas_u64_ls pweak_u64_ls Release SeqCst, cas_u64_xr weak_u64_xr pcas_u64_xr pweak_u64_xr AcqRel Relaxed, cas_u64_xa weak_u64_xa pcas_u64_xa pweak_u64_xa AcqRel Acquire, cas_u64_xs weak_u64_xs pcas_u64_xs pweak_u64_xs AcqRel SeqCst, cas_u64_sr weak_u64_sr pcas_u64_sr pweak_u64_sr SeqCst Relaxed, cas_u64_sa weak_u64_sa pcas_u64_sa pweak_u64_sa SeqCst Acquire, cas_u64_ss weak_u64_ss pcas_u64_ss pweak_u64_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_64! { m_load! { u64; nload_u64_r nload_u64_r Relaxed, nload_u64_a nload_u64_a Acquire, nload_u64_s nload_u64_s SeqCst, } m_store! { u64; nstore_u64_r nstore_u64_r Relaxed, nstore_u64_l nstore_u64_l Release, nstore_u64_s nstore_u64_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_64! { cfg_has_atomic_cas! { m_swap! { u64; nswap_u64_r nswap_u64_r Relaxed, nswap_u64_a nswap_u64_a Acquire, nswap_u64_l nswap_u64_l Release, nswap_u64_x nswap_u64_x AcqRel, nswap_u64_s nswap_u64_s SeqCst, } m_cas! { u64; ncas_u64_rr nweak_u64_rr n n Relaxed Relaxed, ncas_u64_ra nweak_u64_ra n n Relaxed Acquire, ncas_u64_rs nweak_u64_rs n n Relaxed SeqCst, ncas_u64_ar nweak_u64_ar n n Acquire Relaxed, ncas_u64_aa nweak_u64_aa n n Acquire Acquire, ncas_u64_as nweak_u64_as n n Acquire SeqCst, ncas_u64_lr nweak_u64_lr n n Release Relaxed, ncas_u64_la nweak_u64_la n n Release Acquire, ncas_u64_ls nweak_u64_ls n n Release SeqCst, ncas_u64_xr nweak_u64_xr n n AcqRel Relaxed, ncas_u64_xa nweak_u64_xa n n AcqRel Acquire, ncas_u64_xs nweak_u64_xs n n AcqRel SeqCst, ncas_u64_sr nweak_u64_sr n n SeqCst Relaxed, ncas_u64_sa nweak_u64_sa n n SeqCst Acquire, ncas_u64_ss nweak_u64_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_64! { x_load! { u64; qload_u64_r cload_u64_r tload_u64_r kload_u64_r zload_u64_r fload_u64_r Relaxed, qload_u64_a cload_u64_a tload_u64_a kload_u64_a zload_u64_a fload_u64_a Acquire, qload_u64_s cload_u64_s tload_u64_s kload_u64_s zload_u64_s fload_u64_s SeqCst, } x_store! { u64; qstore_u64_r cstore_u64_r tstore_u64_r kstore_u64_r zstore_u64_r fstore_u64_r Relaxed, qstore_u64_l cstore_u64_l tstore_u64_l kstore_u64_l zstore_u64_l fstore_u64_l Release, qstore_u64_s cstore_u64_s tstore_u64_s kstore_u64_s zstore_u64_s fstore_u64_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_64! { cfg_has_atomic_cas! { x_swap! { u64; qswap_u64_r cswap_u64_r tswap_u64_r kswap_u64_r zswap_u64_r fswap_u64_r Relaxed, qswap_u64_a cswap_u64_a tswap_u64_a kswap_u64_a zswap_u64_a fswap_u64_a Acquire, qswap_u64_l cswap_u64_l tswap_u64_l kswap_u64_l zswap_u64_l fswap_u64_l Release, qswap_u64_x cswap_u64_x tswap_u64_x kswap_u64_x zswap_u64_x fswap_u64_x AcqRel, qswap_u64_s cswap_u64_s tswap_u64_s kswap_u64_s zswap_u64_s fswap_u64_s SeqCst, } x_cas! { u64; qcas_u64_rr ccas_u64_rr tcas_u64_rr scas_u64_rr kcas_u64_rr zcas_u64_rr fcas_u64_rr Relaxed Relaxed, qcas_u64_ra ccas_u64_ra tcas_u64_ra scas_u64_ra kcas_u64_ra zcas_u64_ra fcas_u64_ra Relaxed Acquire, qcas_u64_rs ccas_u64_rs tcas_u64_rs scas_u64_rs kcas_u64_rs zcas_u64_rs fcas_u64_rs Relaxed SeqCst, qcas_u64_ar ccas_u64_ar tcas_u64_ar scas_u64_ar kcas_u64_ar zcas_u64_ar fcas_u64_ar Acquire Relaxed, qcas_u64_aa ccas_u64_aa tcas_u64_aa scas_u64_aa kcas_u64_aa zcas_u64_aa fcas_u64_aa Acquire Acquire, qcas_u64_as ccas_u64_as tcas_u64_as scas_u64_as kcas_u64_as zcas_u64_as fcas_u64_as Acquire SeqCst, qcas_u64_lr ccas_u64_lr tcas_u64_lr scas_u64_lr kcas_u64_lr zcas_u64_lr fcas_u64_lr Release Relaxed, qcas_u64_la ccas_u64_la tcas_u64_la scas_u64_la kcas_u64_la zcas_u64_la fcas_u64_la Release Acquire, qcas_u64_ls ccas_u64_ls tcas_u64_ls scas_u64_ls kcas_u64_ls zcas_u64_ls fcas_u64_ls Release SeqCst, qcas_u64_xr ccas_u64_xr tcas_u64_xr scas_u64_xr kcas_u64_xr zcas_u64_xr fcas_u64_xr AcqRel Relaxed, qcas_u64_xa ccas_u64_xa tcas_u64_xa scas_u64_xa kcas_u64_xa zcas_u64_xa fcas_u64_xa AcqRel Acquire, qcas_u64_xs ccas_u64_xs tcas_u64_xs scas_u64_xs kcas_u64_xs zcas_u64_xs fcas_u64_xs AcqRel SeqCst, qcas_u64_sr ccas_u64_sr tcas_u64_sr scas_u64_sr kcas_u64_sr zcas_u64_sr fcas_u64_sr SeqCst Relaxed, qcas_u64_sa ccas_u64_sa tcas_u64_sa scas_u64_sa kcas_u64_sa zcas_u64_sa fcas_u64_sa SeqCst Acquire, qcas_u64_ss ccas_u64_ss tcas_u64_ss scas_u64_ss kcas_u64_ss zcas_u64_ss fcas_u64_ss SeqCst SeqCst, } } }
cfg_has_atomic_64! { cfg_has_atomic_cas! { fu! { u64; fu_u64_rr Relaxed Relaxed, fu_u64_xa AcqRel Acquire, fu_u64_ss SeqCst SeqCst, } fc! { u64; fc_u64_rr Relaxed Relaxed, fc_u64_ra Relaxed Acquire, fc_u64_la Release Acquire, fc_u64_ar Acquire Relaxed, fc_u64_ss SeqCst SeqCst, } } }
cfg_has_atomic_128! { m_load! { i128; load_i128_r pload_i128_r Relaxed, load_i128_a pload_i128_a Acquire, load_i128_s pload_i128_s SeqCst, } m_store! { i128; store_i128_r pstore_i128_r Relaxed, store_i128_l pstore_i128_l Release, store_i128_s pstore_i128_s SeqCst, } }
cfg_has_atomic_128! { cfg_has_atomic_cas! { m_swap! { i128; swap_i128_r pswap_i128_r Relaxed, swap_i128_a pswap_i128_a Acquire, swap_i128_l pswap_i128_l Release, swap_i128_x pswap_i128_x AcqRel, swap_i128_s pswap_i128_s SeqCst, } m_cas! { i128; cas_i128_rr weak_i128_rr pcas_i128_rr pweak_i128_rr Relaxed Relaxed, cas_i128_ra weak_i128_ra pcas_i128_ra pweak_i128_ra Relaxed Acquire, cas_i128_rs weak_i128_rs pcas_i128_rs pweak_i128_rs Relaxed SeqCst, cas_i128_ar weak_i128_ar pcas_i128_ar pweak_i128_ar Acquire Relaxed, cas_i128_aa weak_i128_aa pcas_i128_aa pweak_i128_aa Acquire Acquire, cas_i128_as weak_i128_as pcas_i128_as pweak_i128_as Acquire SeqCst, cas_i128_lr weak_i128_lr pcas_i128_lr pweak_i128_lr Release Relaxed, cas_i128_la weak_i128_la pcas_i128_la pweak_i128_la Release Acquire, cas_i128_ls weak_i128_ls pcas_i128_ls pweak_i128_ls Release SeqCst, cas_i128_xr weak_i128_xr pcas_i128_xr pweak_i128_xr AcqRel Relaxed, cas_i128_xa weak_i128_xa pcas_i128_xa pweak_i128_xa AcqRel Acquire, cas_i128_xs weak_i128_xs pcas_i128_xs pweak_i128_xs AcqRel SeqCst, cas_i128_sr weak_i128_sr pcas_i128_sr pweak_i128_sr SeqCst Relaxed, cas_i128_sa weak_i128_sa pcas_i128_sa pweak_i128_sa SeqCst Acquire, cas_i128_ss weak_i128_ss pcas_i128_ss pweak_i128_ss SeqCst SeqCst, } } }
cfg_has_atomic_128! { cfg_has_atomic_cas! { fu! { i128; fu_i128_rr Relaxed Relaxed, fu_i128_xa AcqRel Acquire, fu_i128_ss SeqCst SeqCst, } fc! { i128; fc_i128_rr Relaxed Relaxed, fc_i128_ra Relaxed Acquire, fc_i128_la Release Acquire, fc_i128_ar Acquire Relaxed, fc_i128_ss SeqCst SeqCst, } } }
cfg_has_atomic_128! { r_load! { u128; load_u128_r pload_u128_r Relaxed, load_u128_a pload_u128_a Acquire, load_u128_s pload_u128_s SeqCst, } r_store! { u128; store_u128_r pstore_u128_r Relaxed, store_u128_l pstore_u128_l Release, store_u128_s pstore_u128_s SeqCst, } }
cfg_has_atomic_128! { cfg_has_atomic_cas! { r_swap! { u128; swap_u128_r pswap_u128_r Relaxed, swap_u128_a pswap_u128_a Acquire, swap_u128_l pswap_u128_l Release, swap_u128_x pswap_u128_x AcqRel, swap_u128_s pswap_u128_s SeqCst, } r_cas! { u128; cas_u128_rr weak_u128_rr pcas_u128_rr pweak_u128_rr Relaxed Relaxed, cas_u128_ra weak_u128_ra pcas_u128_ra pweak_u128_ra Relaxed Acquire, cas_u128_rs weak_u128_rs pcas_u128_rs pweak_u128_rs Relaxed SeqCst, cas_u128_ar weak_u128_ar pcas_u128_ar pweak_u128_ar Acquire Relaxed, cas_u128_aa weak_u128_aa pcas_u128_aa pweak_u128_aa Acquire Acquire, cas_u128_as weak_u128_as pcas_u128_as pweak_u128_as Acquire SeqCst, cas_u128_lr weak_u128_lr pcas_u128_lr pweak_u128_lr Release Relaxed, cas_u128_la weak_u128_la pcas_u128_la pweak_u128_la Release Acquire, cas_u128_ls weak_u128_ls pcas_u128_ls pweak_u128_ls Release SeqCst, cas_u128_xr weak_u128_xr pcas_u128_xr pweak_u128_xr AcqRel Relaxed, cas_u128_xa weak_u128_xa pcas_u128_xa pweak_u128_xa AcqRel Acquire, cas_u128_xs weak_u128_xs pcas_u128_xs pweak_u128_xs AcqRel SeqCst, cas_u128_sr weak_u128_sr pcas_u128_sr pweak_u128_sr SeqCst Relaxed, cas_u128_sa weak_u128_sa pcas_u128_sa pweak_u128_sa SeqCst Acquire, cas_u128_ss weak_u128_ss pcas_u128_ss pweak_u128_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_128! { m_load! { u128; nload_u128_r nload_u128_r Relaxed, nload_u128_a nload_u128_a Acquire, nload_u128_s nload_u128_s SeqCst, } m_store! { u128; nstore_u128_r nstore_u128_r Relaxed, nstore_u128_l nstore_u128_l Release, nstore_u128_s nstore_u128_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_128! { cfg_has_atomic_cas! { m_swap! { u128; nswap_u128_r nswap_u128_r Relaxed, nswap_u128_a nswap_u128_a Acquire, nswap_u128_l nswap_u128_l Release, nswap_u128_x nswap_u128_x AcqRel, nswap_u128_s nswap_u128_s SeqCst, } m_cas! { u128; ncas_u128_rr nweak_u128_rr n n Relaxed Relaxed, ncas_u128_ra nweak_u128_ra n n Relaxed Acquire, ncas_u128_rs nweak_u128_rs n n Relaxed SeqCst, ncas_u128_ar nweak_u128_ar n n Acquire Relaxed, ncas_u128_aa nweak_u128_aa n n Acquire Acquire, ncas_u128_as nweak_u128_as n n Acquire SeqCst, ncas_u128_lr nweak_u128_lr n n Release Relaxed, ncas_u128_la nweak_u128_la n n Release Acquire, ncas_u128_ls nweak_u128_ls n n Release SeqCst, ncas_u128_xr nweak_u128_xr n n AcqRel Relaxed, ncas_u128_xa nweak_u128_xa n n AcqRel Acquire, ncas_u128_xs nweak_u128_xs n n AcqRel SeqCst, ncas_u128_sr nweak_u128_sr n n SeqCst Relaxed, ncas_u128_sa nweak_u128_sa n n SeqCst Acquire, ncas_u128_ss nweak_u128_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_128! { x_load! { u128; qload_u128_r cload_u128_r tload_u128_r kload_u128_r zload_u128_r fload_u128_r Relaxed, qload_u128_a cload_u128_a tload_u128_a kload_u128_a zload_u128_a fload_u128_a Acquire, qload_u128_s cload_u128_s tload_u128_s kload_u128_s zload_u128_s fload_u128_s SeqCst, } x_store! { u128; qstore_u128_r cstore_u128_r tstore_u128_r kstore_u128_r zstore_u128_r fstore_u128_r Relaxed, qstore_u128_l cstore_u128_l tstore_u128_l kstore_u128_l zstore_u128_l fstore_u128_l Release, qstore_u128_s cstore_u128_s tstore_u128_s kstore_u128_s zstore_u128_s fstore_u128_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_128! { cfg_has_atomic_cas! { x_swap! { u128; qswap_u128_r cswap_u128_r tswap_u128_r kswap_u128_r zswap_u128_r fswap_u128_r Relaxed, qswap_u128_a cswap_u128_a tswap_u128_a kswap_u128_a zswap_u128_a fswap_u128_a Acquire, qswap_u128_l cswap_u128_l tswap_u128_l kswap_u128_l zswap_u128_l fswap_u128_l Release, qswap_u128_x cswap_u128_x tswap_u128_x kswap_u128_x zswap_u128_x fswap_u128_x AcqRel, qswap_u128_s cswap_u128_s tswap_u128_s kswap_u128_s zswap_u128_s fswap_u128_s SeqCst, } x_cas! { u128; qcas_u128_rr ccas_u128_rr tcas_u128_rr scas_u128_rr kcas_u128_rr zcas_u128_rr fcas_u128_rr Relaxed Relaxed, qcas_u128_ra ccas_u128_ra tcas_u128_ra scas_u128_ra kcas_u128_ra zcas_u128_ra fcas_u128_ra Relaxed Acquire, qcas_u128_rs ccas_u128_rs tcas_u128_rs scas_u128_rs kcas_u128_rs zcas_u128_rs fcas_u128_rs Relaxed SeqCst, qcas_u128_ar ccas_u128_ar tcas_u128_ar scas_u128_ar kcas_u128_ar zcas_u128_ar fcas_u128_ar Acquire Relaxed, qcas_u128_aa ccas_u128_aa tcas_u128_aa scas_u128_aa kcas_u128_aa zcas_u128_aa fcas_u128_aa Acquire Acquire, qcas_u128_as ccas_u128_as tcas_u128_as scas_u128_as kcas_u128_as zcas_u128_as fcas_u128_as Acquire SeqCst, qcas_u128_lr ccas_u128_lr tcas_u128_lr scas_u128_lr kcas_u128_lr zcas_u128_lr fcas_u128_lr Release Relaxed, qcas_u128_la ccas_u128_la tcas_u128_la scas_u128_la kcas_u128_la zcas_u128_la fcas_u128_la Release Acquire, qcas_u128_ls ccas_u128_ls tcas_u128_ls scas_u128_ls kcas_u128_ls zcas_u128_ls fcas_u128_ls Release SeqCst, qcas_u128_xr ccas_u128_xr tcas_u128_xr scas_u128_xr kcas_u128_xr zcas_u128_xr fcas_u128_xr AcqRel Relaxed, qcas_u128_xa ccas_u128_xa tcas_u128_xa scas_u128_xa kcas_u128_xa zcas_u128_xa fcas_u128_xa AcqRel Acquire, qcas_u128_xs ccas_u128_xs tcas_u128_xs scas_u128_xs kcas_u128_xs zcas_u128_xs fcas_u128_xs AcqRel SeqCst, qcas_u128_sr ccas_u128_sr tcas_u128_sr scas_u128_sr kcas_u128_sr zcas_u128_sr fcas_u128_sr SeqCst Relaxed, qcas_u128_sa ccas_u128_sa tcas_u128_sa scas_u128_sa kcas_u128_sa zcas_u128_sa fcas_u128_sa SeqCst Acquire, qcas_u128_ss ccas_u128_ss tcas_u128_ss scas_u128_ss kcas_u128_ss zcas_u128_ss fcas_u128_ss SeqCst SeqCst, } } }
cfg_has_atomic_128! { cfg_has_atomic_cas! { fu! { u128; fu_u128_rr Relaxed Relaxed, fu_u128_xa AcqRel Acquire, fu_u128_ss SeqCst SeqCst, } fc! { u128; fc_u128_rr Relaxed Relaxed, fc_u128_ra Relaxed Acquire, fc_u128_la Release Acquire, fc_u128_ar Acquire Relaxed, fc_u128_ss SeqCst SeqCst, } } }
cfg_has_atomic_ptr! { m_load! { isize; load_isize_r pload_isize_r Relaxed, load_isize_a pload_isize_a Acquire, load_isize_s pload_isize_s SeqCst, } m_store! { isize; store_isize_r pstore_isize_r Relaxed, store_isize_l pstore_isize_l Release, store_isize_s pstore_isize_s SeqCst, } }
cfg_has_atomic_ptr! { cfg_has_atomic_cas! { m_swap! { isize; swap_isize_r pswap_isize_r Relaxed, swap_isize_a pswap_isize_a Acquire, swap_isize_l pswap_isize_l Release, swap_isize_x pswap_isize_x AcqRel, swap_isize_s pswap_isize_s SeqCst, } m_cas! { isize; cas_isize_rr weak_isize_rr pcas_isize_rr pweak_isize_rr Relaxed Relaxed, cas_isize_ra weak_isize_ra pcas_isize_ra pweak_isize_ra Relaxed Acquire, cas_isize_rs weak_isize_rs pcas_isize_rs pweak_isize_rs Relaxed SeqCst, cas_isize_ar weak_isize_ar pcas_isize_ar pweak_isize_ar Acquire Relaxed, cas_isize_aa weak_isize_aa pcas_isize_aa pweak_isize_aa Acquire Acquire, cas_isize_as weak_isize_as pcas_isize_as pweak_isize_as Acquire SeqCst, cas_isize_lr weak_isize_lr pcas_isize_lr pweak_isize_lr Release Relaxed, cas_isize_la weak_isize_la pcas_isize_la pweak_isize_la Release Acquire, cas_isize_ls weak_isize_ls pcas_isize_ls pweak_isize_ls Release SeqCst, cas_isize_xr weak_isize_xr pcas_isize_xr pweak_isize_xr AcqRel Relaxed, cas_isize_xa weak_isize_xa pcas_isize_xa pweak_isize_xa AcqRel Acquire, cas_isize_xs weak_isize_xs pcas_isize_xs pweak_isize_xs AcqRel SeqCst, cas_isize_sr weak_isize_sr pcas_isize_sr pweak_isize_sr SeqCst Relaxed, cas_isize_sa weak_isize_sa pcas_isize_sa pweak_isize_sa SeqCst Acquire, cas_isize_ss weak_isize_ss pcas_isize_ss pweak_isize_ss SeqCst SeqCst, } } }
cfg_has_atomic_ptr! { cfg_has_atomic_cas! { fu! { isize; fu_isize_rr Relaxed Relaxed, fu_isize_xa AcqRel Acquire, fu_isize_ss SeqCst SeqCst, } fc! { isize; fc_isize_rr Relaxed Relaxed, fc_isize_ra Relaxed Acquire, fc_isize_la Release Acquire, fc_isize_ar Acquire Relaxed, fc_isize_ss SeqCst SeqCst, } } }
cfg_has_atomic_ptr! { r_load! { usize; load_usize_r pload_usize_r Relaxed, load_usize_a pload_usize_a Acquire, load_usize_s pload_usize_s SeqCst, } r_store! { usize; store_usize_r pstore_usize_r Relaxed, store_usize_l pstore_usize_l Release, store_usize_s pstore_usize_s SeqCst, } }
cfg_has_atomic_ptr! { cfg_has_atomic_cas! { r_swap! { usize; swap_usize_r pswap_usize_r Relaxed, swap_usize_a pswap_usize_a Acquire, swap_usize_l pswap_usize_l Release, swap_usize_x pswap_usize_x AcqRel, swap_usize_s pswap_usize_s SeqCst, } r_cas! { usize; cas_usize_rr weak_usize_rr pcas_usize_rr pweak_usize_rr Relaxed Relaxed, cas_usize_ra weak_usize_ra pcas_usize_ra pweak_usize_ra Relaxed Acquire, cas_usize_rs weak_usize_rs pcas_usize_rs pweak_usize_rs Relaxed SeqCst, cas_usize_ar weak_usize_ar pcas_usize_ar pweak_usize_ar Acquire Relaxed, cas_usize_aa weak_usize_aa pcas_usize_aa pweak_usize_aa Acquire Acquire, cas_usize_as weak_usize_as pcas_usize_as pweak_usize_as Acquire SeqCst, cas_usize_lr weak_usize_lr pcas_usize_lr pweak_usize_lr Release Relaxed, cas_usize_la weak_usize_la pcas_usize_la pweak_usize_la Release Acquire, cas_usize_ls weak_usize_ls pcas_usize_ls pweak_usize_ls Release SeqCst, cas_usize_xr weak_usize_xr pcas_usize_xr pweak_usize_xr AcqRel Relaxed, cas_usize_xa weak_usize_xa pcas_usize_xa pweak_usize_xa AcqRel Acquire, cas_usize_xs weak_usize_xs pcas_usize_xs pweak_usize_xs AcqRel SeqCst, cas_usize_sr weak_usize_sr pcas_usize_sr pweak_usize_sr SeqCst Relaxed, cas_usize_sa weak_usize_sa pcas_usize_sa pweak_usize_sa SeqCst Acquire, cas_usize_ss weak_usize_ss pcas_usize_ss pweak_usize_ss SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_ptr! { m_load! { usize; nload_usize_r nload_usize_r Relaxed, nload_usize_a nload_usize_a Acquire, nload_usize_s nload_usize_s SeqCst, } m_store! { usize; nstore_usize_r nstore_usize_r Relaxed, nstore_usize_l nstore_usize_l Release, nstore_usize_s nstore_usize_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_ptr! { cfg_has_atomic_cas! { m_swap! { usize; nswap_usize_r nswap_usize_r Relaxed, nswap_usize_a nswap_usize_a Acquire, nswap_usize_l nswap_usize_l Release, nswap_usize_x nswap_usize_x AcqRel, nswap_usize_s nswap_usize_s SeqCst, } m_cas! { usize; ncas_usize_rr nweak_usize_rr n n Relaxed Relaxed, ncas_usize_ra nweak_usize_ra n n Relaxed Acquire, ncas_usize_rs nweak_usize_rs n n Relaxed SeqCst, ncas_usize_ar nweak_usize_ar n n Acquire Relaxed, ncas_usize_aa nweak_usize_aa n n Acquire Acquire, ncas_usize_as nweak_usize_as n n Acquire SeqCst, ncas_usize_lr nweak_usize_lr n n Release Relaxed, ncas_usize_la nweak_usize_la n n Release Acquire, ncas_usize_ls nweak_usize_ls n n Release SeqCst, ncas_usize_xr nweak_usize_xr n n AcqRel Relaxed, ncas_usize_xa nweak_usize_xa n n AcqRel Acquire, ncas_usize_xs nweak_usize_xs n n AcqRel SeqCst, ncas_usize_sr nweak_usize_sr n n SeqCst Relaxed, ncas_usize_sa nweak_usize_sa n n SeqCst Acquire, ncas_usize_ss nweak_usize_ss n n SeqCst SeqCst, } } }
#[cfg(press)] cfg_has_atomic_ptr! { x_load! { usize; qload_usize_r cload_usize_r tload_usize_r kload_usize_r zload_usize_r fload_usize_r Relaxed, qload_usize_a cload_usize_a tload_usize_a kload_usize_a zload_usize_a fload_usize_a Acquire, qload_usize_s cload_usize_s tload_usize_s kload_usize_s zload_usize_s fload_usize_s SeqCst, } x_store! { usize; qstore_usize_r cstore_usize_r tstore_usize_r kstore_usize_r zstore_usize_r fstore_usize_r Relaxed, qstore_usize_l cstore_usize_l tstore_usize_l kstore_usize_l zstore_usize_l fstore_usize_l Release, qstore_usize_s cstore_usize_s tstore_usize_s kstore_usize_s zstore_usize_s fstore_usize_s SeqCst, } }
#[cfg(press)] cfg_has_atomic_ptr! { cfg_has_atomic_cas! { x_swap! { usize; qswap_usize_r cswap_usize_r tswap_usize_r kswap_usize_r zswap_usize_r fswap_usize_r Relaxed, qswap_usize_a cswap_usize_a tswap_usize_a kswap_usize_a zswap_usize_a fswap_usize_a Acquire, qswap_usize_l cswap_usize_l tswap_usize_l kswap_usize_l zswap_usize_l fswap_usize_l Release, qswap_usize_x cswap_usize_x tswap_usize_x kswap_usize_x zswap_usize_x fswap_usize_x AcqRel, qswap_usize_s cswap_usize_s tswap_usize_s kswap_usize_s zswap_usize_s fswap_usize_s SeqCst, } x_cas! { usize; qcas_usize_rr ccas_usize_rr tcas_usize_rr scas_usize_rr kcas_usize_rr zcas_usize_rr fcas_usize_rr Relaxed Relaxed, qcas_usize_ra ccas_usize_ra tcas_usize_ra scas_usize_ra kcas_usize_ra zcas_usize_ra fcas_usize_ra Relaxed Acquire, qcas_usize_rs ccas_usize_rs tcas_usize_rs scas_usize_rs kcas_usize_rs zcas_usize_rs fcas_usize_rs Relaxed SeqCst, qcas_usize_ar ccas_usize_ar tcas_usize_ar scas_usize_ar kcas_usize_ar zcas_usize_ar fcas_usize_ar Acquire Relaxed, qcas_usize_aa ccas_usize_aa tcas_usize_aa scas_usize_aa kcas_usize_aa zcas_usize_aa fcas_usize_aa Acquire Acquire, qcas_usize_as ccas_usize_as tcas_usize_as scas_usize_as kcas_usize_as zcas_usize_as fcas_usize_as Acquire SeqCst, qcas_usize_lr ccas_usize_lr tcas_usize_lr scas_usize_lr kcas_usize_lr zcas_usize_lr fcas_usize_lr Release Relaxed, qcas_usize_la ccas_usize_la tcas_usize_la scas_usize_la kcas_usize_la zcas_usize_la fcas_usize_la Release Acquire, qcas_usize_ls ccas_usize_ls tcas_usize_ls scas_usize_ls kcas_usize_ls zcas_usize_ls fcas_usize_ls Release SeqCst, qcas_usize_xr ccas_usize_xr tcas_usize_xr scas_usize_xr kcas_usize_xr zcas_usize_xr fcas_usize_xr AcqRel Relaxed, qcas_usize_xa ccas_usize_xa tcas_usize_xa scas_usize_xa kcas_usize_xa zcas_usize_xa fcas_usize_xa AcqRel Acquire, qcas_usize_xs ccas_usize_xs tcas_usize_xs scas_usize_xs kcas_usize_xs zcas_usize_xs fcas_usize_xs AcqRel SeqCst, qcas_usize_sr ccas_usize_sr tcas_usize_sr scas_usize_sr kcas_usize_sr zcas_usize_sr fcas_usize_sr SeqCst Relaxed, qcas_usize_sa ccas_usize_sa tcas_usize_sa scas_usize_sa kcas_usize_sa zcas_usize_sa fcas_usize_sa SeqCst Acquire, qcas_usize_ss ccas_usize_ss tcas_usize_ss scas_usize_ss kcas_usize_ss zcas_usize_ss fcas_usize_ss SeqCst SeqCst, } } }
cfg_has_atomic_ptr! { cfg_has_atomic_cas! { fu! { usize; fu_usize_rr Relaxed Relaxed, fu_usize_xa AcqRel Acquire, fu_usize_ss SeqCst SeqCst, } fc! { usize; fc_usize_rr Relaxed Relaxed, fc_usize_ra Relaxed Acquire, fc_usize_la Release Acquire, fc_usize_ar Acquire Relaxed, fc_usize_ss SeqCst SeqCst, } } }
#[cfg(emu_swap = "sub")] cfg_no_atomic_cas! { m_swap! { i8; swap_i8_r pswap_i8_r Relaxed, swap_i8_a pswap_i8_a Acquire, swap_i8_l pswap_i8_l Release, swap_i8_x pswap_i8_x AcqRel, swap_i8_s pswap_i8_s SeqCst, } }
#[cfg(emu_swap = "sub")] cfg_no_atomic_cas! { r_swap! { u8; swap_u8_r pswap_u8_r Relaxed, swap_u8_a pswap_u8_a Acquire, swap_u8_l pswap_u8_l Release, swap_u8_x pswap_u8_x AcqRel, swap_u8_s pswap_u8_s SeqCst, } }
#[cfg(emu_swap = "sub")] cfg_no_atomic_cas! { m_swap! { i16; swap_i16_r pswap_i16_r Relaxed, swap_i16_a pswap_i16_a Acquire, swap_i16_l pswap_i16_l Release, swap_i16_x pswap_i16_x AcqRel, swap_i16_s pswap_i16_s SeqCst, } }
#[cfg(emu_swap = "sub")] cfg_no_atomic_cas! { r_swap! { u16; swap_u16_r pswap_u16_r Relaxed, swap_u16_a pswap_u16_a Acquire, swap_u16_l pswap_u16_l Release, swap_u16_x pswap_u16_x AcqRel, swap_u16_s pswap_u16_s SeqCst, } }
#[cfg(emu_swap)] cfg_no_atomic_cas! { m_swap! { i32; swap_i32_r pswap_i32_r Relaxed, swap_i32_a pswap_i32_a Acquire, swap_i32_l pswap_i32_l Release, swap_i32_x pswap_i32_x AcqRel, swap_i32_s pswap_i32_s SeqCst, } }
#[cfg(emu_swap)] cfg_no_atomic_cas! { r_swap! { u32; swap_u32_r pswap_u32_r Relaxed, swap_u32_a pswap_u32_a Acquire, swap_u32_l pswap_u32_l Release, swap_u32_x pswap_u32_x AcqRel, swap_u32_s pswap_u32_s SeqCst, } }
#[cfg(all(emu_swap, target_pointer_width = "64"))] cfg_no_atomic_cas! { m_swap! { i64; swap_i64_r pswap_i64_r Relaxed, swap_i64_a pswap_i64_a Acquire, swap_i64_l pswap_i64_l Release, swap_i64_x pswap_i64_x AcqRel, swap_i64_s pswap_i64_s SeqCst, } }
#[cfg(all(emu_swap, target_pointer_width = "64"))] cfg_no_atomic_cas! { r_swap! { u64; swap_u64_r pswap_u64_r Relaxed, swap_u64_a pswap_u64_a Acquire, swap_u64_l pswap_u64_l Release, swap_u64_x pswap_u64_x AcqRel, swap_u64_s pswap_u64_s SeqCst, } }
#[cfg(emu_swap)] cfg_no_atomic_cas! { m_swap! { isize; swap_isize_r pswap_isize_r Relaxed, swap_isize_a pswap_isize_a Acquire, swap_isize_l pswap_isize_l Release, swap_isize_x pswap_isize_x AcqRel, swap_isize_s pswap_isize_s SeqCst, } }
#[cfg(emu_swap)] cfg_no_atomic_cas! { r_swap! { usize; swap_usize_r pswap_usize_r Relaxed, swap_usize_a pswap_usize_a Acquire, swap_usize_l pswap_usize_l Release, swap_usize_x pswap_usize_x AcqRel, swap_usize_s pswap_usize_s SeqCst, } }
