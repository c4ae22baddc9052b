use crate::kit::Prop;

mod buffer;
mod cache;
mod concurrency;
mod errors;
mod hedge;
mod large;
mod limits;
mod load;
mod make;
mod memory;
mod mock;
mod panics;
mod reenter;
mod rest;
mod retry;
mod routes;
mod stack;
mod streams;
mod util;

pub fn all() -> Vec<Prop> {
    vec![
        buffer::p01(), buffer::p02(), buffer::p03(), concurrency::prop(), limits::p05(), limits::p06(), limits::p07(),
        retry::p08(), retry::p09(), retry::p10(),
        hedge::p11(), cache::p12(), cache::p13(), load::p14(), load::p15(), routes::p17(), routes::p18(), routes::p19(), streams::p20(), streams::p21(), util::p22(), util::p23(), stack::p16(), stack::p24(), mock::prop(), make::p26(), make::p27(), errors::p28(), rest::p29(), memory::p30(), panics::p31(), reenter::p32(),
    ]
}
