#![allow(warnings)]
include!("../common.rs");
mod gen {
    use super::*;
    include!("../gen/c06.rs");
}
mod mix {
    use super::*;
    include!("../gen/mixc06.rs");
}
symrt::harness! {
    h_mix => mix::grid(0);
    h_mix_step => mix::step(1);
    h_mix_deep => mix::grid(1);
    h_step => gen::step(1);
    h_step_deep => gen::step(2);
    h_grid => gen::grid(0);
    h_grid_deep => gen::grid(1);
}
