// Operations on the points `goldilocks::point_by_secret` returns. The type is not nameable from outside, its methods
// are callable: each group is a feature of its own, so that a tree without it can still be analysed.

#[cfg(feature = "pt_mul")]
pub fn root_pt_mul(k: &[u8; 57], s: &[u32; 14]) -> [u8; 57] {
    g::point_by_secret(k).point_scalar_mul(s).eddsa_like_encode()
}
#[cfg(feature = "pt_group")]
pub fn root_pt_double(k: &[u8; 57]) -> [u8; 57] {
    let mut p = g::point_by_secret(k);
    p.double_internal(false);
    p.eddsa_like_encode()
}
#[cfg(feature = "pt_group")]
pub fn root_pt_add(k: &[u8; 57], l: &[u8; 57]) -> [u8; 57] {
    let mut p = g::point_by_secret(k);
    p.add_projected_niels_to_extended(&g::point_by_secret(l).to_projected_niels(), false);
    p.eddsa_like_encode()
}
#[cfg(feature = "pt_group")]
pub fn root_pt_sub(k: &[u8; 57], l: &[u8; 57]) -> [u8; 57] {
    let mut p = g::point_by_secret(k);
    p.sub_projected_niels_from_extended_point(&g::point_by_secret(l).to_projected_niels(), false);
    p.eddsa_like_encode()
}
#[cfg(feature = "pt_group")]
pub fn root_pt_niels(k: &[u8; 57]) -> [u8; 57] {
    g::point_by_secret(k).to_projected_niels().to_extended_point().eddsa_like_encode()
}
#[cfg(feature = "pt_eq")]
pub fn root_pt_eq(k: &[u8; 57], l: &[u8; 57]) -> bool {
    g::point_by_secret(k).mod_equal(&g::point_by_secret(l))
}
#[cfg(feature = "pt_curve")]
pub fn root_pt_on_curve(k: &[u8; 57]) -> bool {
    g::point_by_secret(k).is_on_curve()
}
#[cfg(feature = "pt_identity")]
pub fn root_pt_identity(k: &[u8; 57]) -> [u8; 57] {
    let mut p = g::point_by_secret(k);
    p.set_identity();
    p.eddsa_like_encode()
}
