//! Types whose name and schema are symbolic: `T::<I>` stands for an arbitrary
//! implementation of `OpgModel` that obeys the trait's contract.
use crate::gen::*;
use crate::sx::*;
use crate::o::*;
use std::borrow::Cow;

#[derive(Clone)]
pub struct Spec {
    pub name: Option<String>,
    pub schema: Model,
    /// Mentions made while the schema is built: (type, inline, as property name).
    pub mentions: Vec<(usize, bool)>,
    pub calls: u32,
}
pub const N: usize = 4;
static mut SPECS: [Option<Spec>; N] = [None, None, None, None];

#[allow(static_mut_refs)]
pub fn spec(i: usize) -> &'static mut Spec {
    unsafe { SPECS[i].as_mut().unwrap() }
}
#[allow(static_mut_refs)]
pub fn set_spec(i: usize, s: Spec) {
    unsafe { SPECS[i] = Some(s) }
}
pub struct T<const I: usize>;

pub fn mention(cx: &mut Components, i: usize, inline: bool, params: &ContextParams) -> ModelReference {
    match i {
        0 => cx.mention_schema::<T<0>>(inline, params),
        1 => cx.mention_schema::<T<1>>(inline, params),
        2 => cx.mention_schema::<T<2>>(inline, params),
        _ => cx.mention_schema::<T<3>>(inline, params),
    }
}

impl<const I: usize> OpgModel for T<I> {
    fn get_schema(cx: &mut Components) -> Model {
        spec(I).calls += 1;
        let s = spec(I).clone();
        let mut m = s.schema;
        for (k, (j, inline)) in s.mentions.iter().enumerate() {
            let r = mention(cx, *j, *inline, &crate::eq::params_none());
            m = attach(m, k, r);
        }
        m
    }
    fn type_name() -> Option<Cow<'static, str>> {
        spec(I).name.clone().map(Cow::Owned)
    }
}
const KEYS: [&str; 3] = ["a", "b", "c"];
/// Puts a reference inside a schema.
pub fn attach(m: Model, k: usize, r: ModelReference) -> Model {
    let mut m = m;
    match &mut m.data {
        ModelData::Single(ModelType { type_description: ModelTypeDescription::Object(o), .. }) => {
            o.properties.insert(KEYS[k].to_owned(), r);
        }
        ModelData::OneOf(o) => o.one_of.push(r),
        ModelData::AllOf(o) => o.all_of.push(r),
        ModelData::AnyOf(o) => o.any_of.push(r),
        d => *d = single(false, ModelTypeDescription::Array(ModelArray { items: Box::new(r) })),
    }
    m
}
/// A symbolic type that mentions nothing: any small schema, named (one symbolic
/// byte) or not.
pub fn gen_leaf_type(i: usize, depth: u32) {
    let name = if flip() { Some(ascii(1)) } else { None };
    let schema = gen_model(depth);
    set_spec(i, Spec { name, schema, mentions: Vec::new(), calls: 0 });
}
