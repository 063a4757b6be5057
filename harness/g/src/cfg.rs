//! Derive inputs as data: what the user wrote, how it is rendered, and what it
//! means according to the documentation (the reference resolution of options).
use crate::tok::*;
use proc_macro2::{Ident, Span, TokenStream};
use quote::quote;
use symrt::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pat {
    Owned,
    Mutable,
    Immutable,
}
pub const PATS: [Pat; 3] = [Pat::Owned, Pat::Mutable, Pat::Immutable];
impl Pat {
    pub fn lit(self) -> &'static str {
        match self {
            Pat::Owned => "owned",
            Pat::Mutable => "mutable",
            Pat::Immutable => "immutable",
        }
    }
    pub fn clone(self) -> bool {
        self != Pat::Owned
    }
}
/// A visibility as written on an item.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    Inh,
    Pub,
    Crate,
    Super,
    In,
    SelfV,
}
pub const VS: [V; 6] = [V::Inh, V::Pub, V::Crate, V::Super, V::In, V::SelfV];
impl V {
    pub fn ts(self) -> TokenStream {
        match self {
            V::Inh => quote!(),
            V::Pub => quote!(pub),
            V::Crate => quote!(pub(crate)),
            V::Super => quote!(pub(super)),
            V::In => quote!(pub(in a::b)),
            V::SelfV => quote!(pub(self)),
        }
    }
    pub fn s(self) -> &'static str {
        match self {
            V::Inh => "",
            V::Pub => "pub",
            V::Crate => "pub(crate)",
            V::Super => "pub(super)",
            V::In => "pub(in a::b)",
            V::SelfV => "pub(self)",
        }
    }
}
/// `public`, `private`, `vis = ".."` options.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct VisC {
    pub public: bool,
    pub private: bool,
    pub vis: Option<V>,
}
impl VisC {
    pub const NONE: VisC = VisC { public: false, private: false, vis: None };
    pub fn eff(&self) -> Option<V> {
        if self.public {
            Some(V::Pub)
        } else if self.private {
            Some(V::Inh)
        } else {
            self.vis
        }
    }
    pub fn conflict(&self) -> bool {
        self.public as u8 + self.private as u8 + self.vis.is_some() as u8 > 1
    }
    pub fn opts(&self, o: &mut Vec<TokenStream>) {
        if self.public {
            o.push(quote!(public));
        }
        if self.private {
            o.push(quote!(private));
        }
        if let Some(v) = self.vis {
            let s = v.s();
            o.push(quote!(vis = #s));
        }
    }
    pub fn is_none(&self) -> bool {
        !self.public && !self.private && self.vis.is_none()
    }
    pub fn of(v: Option<V>) -> VisC {
        match v {
            None => VisC::NONE,
            Some(V::Pub) => VisC { public: true, ..VisC::NONE },
            Some(V::Inh) => VisC { private: true, ..VisC::NONE },
            Some(v) => VisC { vis: Some(v), ..VisC::NONE },
        }
    }
}
#[derive(Clone, Default, Debug)]
pub struct SetterC {
    pub word: bool,
    pub prefix: Option<Ident>,
    pub name: Option<Ident>,
    pub into: Option<bool>,
    pub strip: Option<bool>,
    pub skip: Option<bool>,
    pub custom: Option<bool>,
    /// name, `into` given
    pub each: Option<(Ident, Option<bool>)>,
}
fn flag_opt(k: &str, v: Option<bool>, o: &mut Vec<TokenStream>) {
    let k = Ident::new(k, Span::call_site());
    match v {
        Some(true) => o.push(quote!(#k)),
        Some(false) => o.push(quote!(#k = false)),
        None => {}
    }
}
impl SetterC {
    fn opts(&self, o: &mut Vec<TokenStream>) {
        let mut i = Vec::new();
        if let Some(p) = &self.prefix {
            let p = p.to_string();
            i.push(quote!(prefix = #p));
        }
        if let Some(p) = &self.name {
            let p = p.to_string();
            i.push(quote!(name = #p));
        }
        flag_opt("into", self.into, &mut i);
        flag_opt("strip_option", self.strip, &mut i);
        flag_opt("skip", self.skip, &mut i);
        flag_opt("custom", self.custom, &mut i);
        if let Some((n, into)) = &self.each {
            let n = n.to_string();
            match into {
                None => i.push(quote!(each = #n)),
                Some(true) => i.push(quote!(each(name = #n, into))),
                Some(false) => i.push(quote!(each(name = #n, into = false))),
            }
        }
        if !i.is_empty() {
            o.push(quote!(setter(#(#i),*)));
        } else if self.word {
            o.push(quote!(setter));
        }
    }
}
#[derive(Clone, Debug)]
pub enum Def {
    Word,
    /// `default = "expr"` / `default = expr`
    Str(TokenStream),
    Expr(TokenStream),
    /// `default = ".."` with exactly this text
    Text(String),
}
impl Def {
    fn opt(&self) -> TokenStream {
        match self {
            Def::Word => quote!(default),
            Def::Str(t) => {
                let s = t.to_string();
                quote!(default = #s)
            }
            Def::Expr(t) => quote!(default = #t),
            Def::Text(s) => quote!(default = #s),
        }
    }
}
fn attr(o: &[TokenStream], split: bool) -> TokenStream {
    if o.is_empty() {
        quote!()
    } else if split {
        quote!(#(#[builder(#o)])*)
    } else {
        quote!(#[builder(#(#o),*)])
    }
}
#[derive(Clone)]
pub struct FieldC {
    pub vis: V,
    pub ident: Ident,
    pub ty: TokenStream,
    pub pattern: Option<Pat>,
    pub visibility: VisC,
    pub setter: SetterC,
    pub default: Option<Def>,
    pub try_setter: bool,
    pub fvis: VisC,
    pub fty: Option<TokenStream>,
    pub fbuild: Option<TokenStream>,
    /// attributes written before / after the builder attribute
    pub attrs: Vec<TokenStream>,
    /// raw extra options
    pub extra: Vec<TokenStream>,
    /// write every option in a `#[builder(..)]` of its own
    pub split: bool,
}
impl FieldC {
    pub fn new(ident: Ident, ty: TokenStream) -> FieldC {
        FieldC {
            vis: V::Pub,
            ident,
            ty,
            pattern: None,
            visibility: VisC::NONE,
            setter: SetterC::default(),
            default: None,
            try_setter: false,
            fvis: VisC::NONE,
            fty: None,
            fbuild: None,
            attrs: vec![],
            extra: vec![],
            split: false,
        }
    }
    pub fn opts(&self) -> Vec<TokenStream> {
        let mut o = Vec::new();
        if let Some(p) = self.pattern {
            let p = p.lit();
            o.push(quote!(pattern = #p));
        }
        self.visibility.opts(&mut o);
        self.setter.opts(&mut o);
        if let Some(d) = &self.default {
            o.push(d.opt());
        }
        if self.try_setter {
            o.push(quote!(try_setter));
        }
        let mut f = Vec::new();
        self.fvis.opts(&mut f);
        if let Some(t) = &self.fty {
            let s = t.to_string();
            f.push(quote!(ty = #s));
        }
        if let Some(t) = &self.fbuild {
            let s = t.to_string();
            f.push(quote!(build = #s));
        }
        if !f.is_empty() {
            o.push(quote!(field(#(#f),*)));
        }
        o.extend(self.extra.iter().cloned());
        o
    }
    pub fn ts(&self) -> TokenStream {
        self.ts_as(&|o| attr(o, self.split))
    }
    /// `render` writes a list of options as attributes.
    pub fn ts_as(&self, render: &dyn Fn(&[TokenStream]) -> TokenStream) -> TokenStream {
        let b = render(&self.opts());
        let (vis, id, ty) = (self.vis.ts(), &self.ident, &self.ty);
        let attrs = &self.attrs;
        quote!(#(#attrs)* #b #vis #id: #ty)
    }
}
#[derive(Clone, Default)]
pub struct BuildC {
    pub skip: bool,
    pub name: Option<Ident>,
    pub validate: Option<TokenStream>,
    pub vis: VisC,
    pub error: Option<ErrC>,
}
#[derive(Clone)]
pub enum ErrC {
    Path(TokenStream),
    Generated(bool),
}
#[derive(Clone)]
pub struct StructC {
    pub vis: V,
    pub ident: Ident,
    pub generics: TokenStream,
    pub where_: TokenStream,
    pub name: Option<Ident>,
    pub crate_root: Option<TokenStream>,
    pub pattern: Option<Pat>,
    pub build: BuildC,
    pub derive: Vec<TokenStream>,
    pub custom_ctor: bool,
    pub create_empty: Option<Ident>,
    pub setter: SetterC,
    pub default: Option<Def>,
    pub visibility: VisC,
    pub no_std: bool,
    pub try_setter: bool,
    pub fvis: VisC,
    pub attrs: Vec<TokenStream>,
    pub extra: Vec<TokenStream>,
    pub split: bool,
    pub fields: Vec<FieldC>,
}
impl StructC {
    pub fn new(ident: Ident, fields: Vec<FieldC>) -> StructC {
        StructC {
            vis: V::Pub,
            ident,
            generics: quote!(),
            where_: quote!(),
            name: None,
            crate_root: None,
            pattern: None,
            // without alloc the default error type is a compile error (C23)
            build: BuildC { error: if cfg!(feature = "noalloc") { Some(ErrC::Generated(false)) } else { None }, ..BuildC::default() },
            derive: vec![],
            custom_ctor: false,
            create_empty: None,
            setter: SetterC::default(),
            default: None,
            visibility: VisC::NONE,
            no_std: false,
            try_setter: false,
            fvis: VisC::NONE,
            attrs: vec![],
            extra: vec![],
            split: false,
            fields,
        }
    }
    pub fn opts(&self) -> Vec<TokenStream> {
        let mut o = Vec::new();
        if let Some(n) = &self.name {
            let n = n.to_string();
            o.push(quote!(name = #n));
        }
        if let Some(c) = &self.crate_root {
            let c = c.to_string();
            o.push(quote!(crate = #c));
        }
        if let Some(p) = self.pattern {
            let p = p.lit();
            o.push(quote!(pattern = #p));
        }
        let mut b = Vec::new();
        if self.build.skip {
            b.push(quote!(skip));
        }
        if let Some(n) = &self.build.name {
            let n = n.to_string();
            b.push(quote!(name = #n));
        }
        if let Some(n) = &self.build.validate {
            let n = n.to_string();
            b.push(quote!(validate = #n));
        }
        self.build.vis.opts(&mut b);
        match &self.build.error {
            Some(ErrC::Path(p)) => {
                let s = p.to_string();
                b.push(quote!(error = #s));
            }
            Some(ErrC::Generated(v)) => b.push(quote!(error(validation_error = #v))),
            None => {}
        }
        if !b.is_empty() {
            o.push(quote!(build_fn(#(#b),*)));
        }
        if !self.derive.is_empty() {
            let d = &self.derive;
            o.push(quote!(derive(#(#d),*)));
        }
        if self.custom_ctor {
            o.push(quote!(custom_constructor));
        }
        if let Some(n) = &self.create_empty {
            let n = n.to_string();
            o.push(quote!(create_empty = #n));
        }
        self.setter.opts(&mut o);
        if let Some(d) = &self.default {
            o.push(d.opt());
        }
        self.visibility.opts(&mut o);
        if self.no_std {
            o.push(quote!(no_std));
        }
        if self.try_setter {
            o.push(quote!(try_setter));
        }
        let mut f = Vec::new();
        self.fvis.opts(&mut f);
        if !f.is_empty() {
            o.push(quote!(field(#(#f),*)));
        }
        o.extend(self.extra.iter().cloned());
        o
    }
    pub fn ts(&self) -> TokenStream {
        let f: Vec<TokenStream> = self.fields.iter().map(|f| f.ts()).collect();
        self.ts_with(&|o| attr(o, self.split), f)
    }
    pub fn ts_as(&self, render: &dyn Fn(&[TokenStream]) -> TokenStream) -> TokenStream {
        let f: Vec<TokenStream> = self.fields.iter().map(|f| f.ts_as(render)).collect();
        self.ts_with(render, f)
    }
    fn ts_with(&self, render: &dyn Fn(&[TokenStream]) -> TokenStream, f: Vec<TokenStream>) -> TokenStream {
        let b = render(&self.opts());
        let (vis, id, g, w) = (self.vis.ts(), &self.ident, &self.generics, &self.where_);
        let attrs = &self.attrs;
        quote!(#(#attrs)* #b #vis struct #id #g #w { #(#f),* })
    }
    pub fn expand(&self) -> Vec<T> {
        flat(crate::expand(self.ts()))
    }

    // --- reference resolution of options (from the documentation) ---
    pub fn pat(&self) -> Pat {
        self.pattern.unwrap_or(Pat::Mutable)
    }
    pub fn fpat(&self, f: &FieldC) -> Pat {
        f.pattern.unwrap_or(self.pat())
    }
    /// Does the field have a slot in the builder?
    pub fn enabled(&self, f: &FieldC) -> bool {
        let s = &f.setter;
        if let Some(k) = s.skip {
            return !k;
        }
        if s.prefix.is_some() || s.name.is_some() || s.into.is_some() || s.strip.is_some() || s.each.is_some() || s.custom == Some(false) {
            return true;
        }
        if s.word && s.custom.is_none() {
            return true;
        }
        !self.setter.skip.unwrap_or(false)
    }
    pub fn has_setter(&self, f: &FieldC) -> bool {
        self.enabled(f) && f.setter.custom != Some(true)
    }
    pub fn into(&self, f: &FieldC) -> bool {
        f.setter.into.or(self.setter.into).unwrap_or(false)
    }
    pub fn strip(&self, f: &FieldC) -> bool {
        f.setter.strip.or(self.setter.strip).unwrap_or(false)
    }
    pub fn has_try(&self, f: &FieldC) -> bool {
        self.has_setter(f) && (f.try_setter || self.try_setter)
    }
    pub fn setter_name(&self, f: &FieldC) -> String {
        if let Some(n) = &f.setter.name {
            return n.to_string();
        }
        match f.setter.prefix.as_ref().or(self.setter.prefix.as_ref()) {
            Some(p) => [unraw(&p.to_string()), "_", unraw(&f.ident.to_string())].concat(),
            None => f.ident.to_string(),
        }
    }
    pub fn try_name(&self, f: &FieldC) -> String {
        ["try_", unraw(&self.setter_name(f))].concat()
    }
    pub fn setter_vis(&self, f: &FieldC) -> V {
        f.visibility.eff().or(self.visibility.eff()).unwrap_or(V::Pub)
    }
    pub fn field_vis(&self, f: &FieldC) -> V {
        if let Some(v) = f.fvis.eff() {
            return v;
        }
        if !self.enabled(f) {
            return V::Inh;
        }
        self.fvis.eff().unwrap_or(V::Inh)
    }
    pub fn builder_vis(&self) -> V {
        self.visibility.eff().unwrap_or(self.vis)
    }
    pub fn build_vis(&self) -> V {
        self.build.vis.eff().unwrap_or(self.builder_vis())
    }
    pub fn builder_name(&self) -> String {
        match &self.name {
            Some(n) => n.to_string(),
            None => [unraw(&self.ident.to_string()), "Builder"].concat(),
        }
    }
    pub fn error_name(&self) -> String {
        [unraw(&self.builder_name()), "Error"].concat()
    }
    pub fn build_name(&self) -> String {
        self.build.name.as_ref().map_or(String::from("build"), |n| n.to_string())
    }
    pub fn empty_name(&self) -> String {
        self.create_empty.as_ref().map_or(String::from("create_empty"), |n| n.to_string())
    }
    pub fn gen_error(&self) -> bool {
        !matches!(self.build.error, Some(ErrC::Path(_)))
    }
    pub fn gen_validation(&self) -> bool {
        self.gen_error() && !matches!(self.build.error, Some(ErrC::Generated(false)))
    }
    pub fn must_clone(&self) -> bool {
        self.pat().clone() || self.fields.iter().any(|f| self.fpat(f).clone())
    }
    pub fn root(&self) -> Vec<T> {
        match &self.crate_root {
            Some(r) => flat(r.clone()),
            None => flat(quote!(::derive_builder)),
        }
    }
}
pub fn unraw(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
pub fn id(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
/// A symbolic identifier character: a-z, A-Z, 0-9 or _ (only a-z with `letter`).
pub fn sym_char(name: &str, letter: bool) -> u8 {
    if letter {
        return b'a' + below(name, 26) as u8;
    }
    let v = below(name, 63) as u8;
    v.wrapping_add(97)
        .wrapping_sub(58u8.wrapping_mul((v >= 26) as u8))
        .wrapping_sub(43u8.wrapping_mul((v >= 52) as u8))
        .wrapping_add(37u8.wrapping_mul((v >= 62) as u8))
}
/// `prefix` followed by `n` symbolic characters (letters only without a prefix).
pub fn sym_name(name: &str, prefix: &str, n: usize) -> String {
    let mut v: Vec<u8> = prefix.as_bytes().to_vec();
    for _ in 0..n {
        v.push(sym_char(name, prefix.is_empty()));
    }
    // all bytes are ASCII by construction
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn sym_id(name: &str, prefix: &str, n: usize) -> Ident {
    id(&sym_name(name, prefix, n))
}
/// Optional boolean: absent / true / false.
pub fn tri(name: &str) -> Option<bool> {
    match choice(name, 3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}
pub fn opt_pat(name: &str) -> Option<Pat> {
    match choice(name, 4) {
        0 => None,
        n => Some(PATS[n - 1]),
    }
}
pub fn opt_vis(name: &str) -> VisC {
    match choice(name, 5) {
        0 => VisC::NONE,
        1 => VisC::of(Some(V::Pub)),
        2 => VisC::of(Some(V::Inh)),
        3 => VisC::of(Some(V::Crate)),
        _ => VisC::of(Some(V::Super)),
    }
}
