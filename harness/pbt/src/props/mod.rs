pub mod arith;
pub mod common;
pub mod conv;
pub mod dd;
pub mod hist;
pub mod meta;
pub mod text;
pub mod tot;

use crate::engine::Prop;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(arith::PROPS);
    v.extend(conv::PROPS);
    v.extend(text::PROPS);
    v.extend(dd::PROPS);
    v.extend(meta::PROPS);
    v.extend(hist::PROPS);
    v.extend(tot::PROPS);
    v.sort_by_key(|p| p.id);
    v
}
