//! The contracts of internal functions that other proofs rely on, proved on the real functions.
use crate::points::*;
use crate::support::*;

// ---- KnownLayoutInfo::try_from(LayoutDescription), for every layout a proof uses
macro_rules! known {
    ($h:ident, $shape:ident, $tab:expr) => {
        proof! {
        #[kani::unwind(9)]
        #[kani::stub(str::to_lowercase, ascii_lowercase_stub)]
        fn $h() {
            assert!(ros_pointcloud2::verif::$shape::holds(known_layout(&$tab)), "the layout is translated entry by entry");
        }
        }
    };
}
known!(k_known_a8, a8, L_A8);
known!(k_known_a16, a16, L_A16);
known!(k_known_a32, a32, L_A32);
known!(k_known_af64, af64, L_AF64);
known!(k_known_p2, p2, L_P2);
known!(k_known_m2, m2, L_M2);
known!(k_known_q2, q2, L_Q2);
known!(k_known_b2, b2, L_B2);
known!(k_known_u3, u3, L_U3);
known!(k_known_xyz, xyz, T_XYZ);
known!(k_known_xyzi, xyzi, T_XYZI);
known!(k_known_xyzl, xyzl, T_XYZL);
known!(k_known_xyzrgb, xyzi, T_XYZRGB);
known!(k_known_xyzrgba, xyzrgba, T_XYZRGBA);
known!(k_known_xyzrgbl, xyzrgbl, T_XYZRGBL);
known!(k_known_xyznormal, xyznormal, T_XYZNORMAL);
known!(k_known_xyzinormal, xyzinormal, T_XYZINORMAL);
known!(k_known_xyzrgbnormal, xyzinormal, T_XYZRGBNORMAL);
