pub mod bx;
pub mod cam;
pub mod geom;
pub mod iv;
pub mod sc;
pub mod scn;
pub mod sp;
pub mod unit;
pub mod vec;
pub mod view;
pub mod xf;

use crate::engine::Property;

pub fn all() -> Vec<fn() -> Property> {
    vec![
        iv::c01, iv::c02, iv::c03, iv::c04, sc::c05, vec::c06, vec::c07, xf::c08, xf::c09, xf::c10, xf::c11, xf::c12,
        bx::c13, bx::c14, bx::c15, bx::c16, sp::c17, sp::c18, scn::c19, scn::c20, cam::c21, cam::c22, view::c23,
        unit::c24,
    ]
}
