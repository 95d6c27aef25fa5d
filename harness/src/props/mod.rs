pub mod api;
pub mod back;
pub mod ext;
pub mod ffi;
pub mod phys;
pub mod pt;
pub mod pure;
pub mod sat;
pub mod sys;
use crate::engine::Prop;
pub fn all() -> Vec<fn() -> Prop> {
    vec![
        pt::c01, pt::c02, pt::c03, pt::c13, pt::c14, back::c06, back::c07, back::c08, ext::c09, ext::c10, sat::c04, sat::c05, sat::c11, sat::c12, sys::c15, sys::c16, sys::c17, ffi::c18, ffi::c19, pure::c20, sys::c21, phys::c22, phys::c23,
    ]
}
