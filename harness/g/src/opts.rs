//! Every documented option, one value each (or every value where there are few),
//! for harnesses that combine them.
use crate::cfg::*;
use proc_macro2::TokenStream;
use quote::quote;

pub const S_OPTS: usize = 33;
/// Apply struct-level option `k`; the result is its group (options of one group exclude each other).
pub fn s_opt(s: &mut StructC, k: usize) -> usize {
    match k {
        0 => {
            s.name = Some(id("Maker"));
            0
        }
        1 => {
            s.crate_root = Some(quote!(::my::root));
            1
        }
        2 | 3 | 4 => {
            s.pattern = Some(PATS[k - 2]);
            2
        }
        5 => {
            s.build.skip = true;
            3
        }
        6 => {
            s.build.name = Some(id("finish"));
            4
        }
        7 => {
            s.build.validate = Some(quote!(Self::validate));
            5
        }
        8 | 9 | 10 => {
            s.build.vis = VisC::of(Some([V::Pub, V::Inh, V::Crate][k - 8]));
            6
        }
        11 => {
            s.build.error = Some(ErrC::Path(quote!(crate::MyError)));
            7
        }
        12 | 13 => {
            s.build.error = Some(ErrC::Generated(k == 12));
            7
        }
        14 => {
            s.derive = vec![quote!(Debug), quote!(my::Trait)];
            8
        }
        15 => {
            s.custom_ctor = true;
            9
        }
        16 => {
            s.create_empty = Some(id("blank"));
            10
        }
        17 => {
            s.setter.prefix = Some(id("with"));
            11
        }
        18 | 19 => {
            s.setter.into = Some(k == 18);
            12
        }
        20 | 21 => {
            s.setter.strip = Some(k == 20);
            13
        }
        22 | 23 => {
            s.setter.skip = Some(k == 22);
            14
        }
        24 => {
            s.default = Some(Def::Word);
            15
        }
        25 => {
            s.default = Some(Def::Str(quote!(Self::make(1)?)));
            15
        }
        26 | 27 | 28 => {
            s.visibility = VisC::of(Some([V::Pub, V::Inh, V::Super][k - 26]));
            16
        }
        29 => {
            s.no_std = true;
            17
        }
        30 => {
            s.try_setter = true;
            18
        }
        _ => {
            s.fvis = VisC::of(Some([V::Pub, V::Crate][k - 31]));
            19
        }
    }
}
pub const F_OPTS: usize = 30;
pub fn f_opt(f: &mut FieldC, k: usize) -> usize {
    match k {
        0 | 1 | 2 => {
            f.pattern = Some(PATS[k]);
            0
        }
        3 | 4 | 5 => {
            f.visibility = VisC::of(Some([V::Pub, V::Inh, V::In][k - 3]));
            1
        }
        6 => {
            f.setter.word = true;
            2
        }
        7 => {
            f.setter.prefix = Some(id("put"));
            3
        }
        8 => {
            f.setter.name = Some(id("assign"));
            4
        }
        9 | 10 => {
            f.setter.into = Some(k == 9);
            5
        }
        11 | 12 => {
            f.setter.strip = Some(k == 11);
            6
        }
        13 | 14 => {
            f.setter.skip = Some(k == 13);
            7
        }
        15 | 16 => {
            f.setter.custom = Some(k == 15);
            8
        }
        17 | 18 | 19 => {
            f.setter.each = Some((id("push_it"), [None, Some(true), Some(false)][k - 17]));
            9
        }
        20 => {
            f.default = Some(Def::Word);
            10
        }
        21 => {
            f.default = Some(Def::Str(quote!(Default::default())));
            10
        }
        22 => {
            f.default = Some(Def::Expr(quote!(self.make()?)));
            10
        }
        23 => {
            f.try_setter = true;
            11
        }
        24 | 25 | 26 => {
            f.fvis = VisC::of(Some([V::Pub, V::Inh, V::Crate][k - 24]));
            12
        }
        27 => {
            f.fty = Some(quote!(Option<Wrapper<u8>>));
            13
        }
        28 => {
            f.fbuild = Some(quote!(self.field.clone().into()));
            14
        }
        _ => {
            f.split = true;
            15
        }
    }
}
/// Options that the documentation says cannot be combined.
pub fn contradictory(s: &StructC) -> bool {
    cfg!(feature = "noalloc") && s.gen_validation()
        || s.build.validate.is_some() && matches!(s.build.error, Some(ErrC::Generated(false)))
        || s.visibility.conflict()
        || s.build.vis.conflict()
        || s.fvis.conflict()
        || s.fields.iter().any(|f| f.default.is_some() && (f.fty.is_some() || f.fbuild.is_some()) || f.visibility.conflict() || f.fvis.conflict())
}
