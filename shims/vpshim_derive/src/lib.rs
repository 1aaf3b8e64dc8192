//! `#[derive(ExpSerde)]` of the absent Expander crate `serdes`: fields in order, enums by variant index.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let body = |f: &Fields| -> (Vec<syn::Ident>, Vec<syn::Type>, bool) {
        match f {
            Fields::Named(n) => (
                n.named.iter().map(|x| x.ident.clone().unwrap()).collect(),
                n.named.iter().map(|x| x.ty.clone()).collect(),
                true,
            ),
            Fields::Unnamed(n) => (
                (0..n.unnamed.len()).map(|i| format_ident!("f{}", i)).collect(),
                n.unnamed.iter().map(|x| x.ty.clone()).collect(),
                false,
            ),
            Fields::Unit => (vec![], vec![], true),
        }
    };
    let (ser, de) = match &input.data {
        Data::Struct(s) => {
            let (ids, tys, named) = body(&s.fields);
            let pat = if named { quote!(Self { #(#ids),* }) } else { quote!(Self ( #(#ids),* )) };
            (
                quote! { let #pat = self; #( serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* Ok(()) },
                quote! { #( let #ids = <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?; )* Ok(#pat) },
            )
        }
        Data::Enum(e) => {
            let mut sers = vec![];
            let mut des = vec![];
            for (i, v) in e.variants.iter().enumerate() {
                let i = i as u8;
                let vn = &v.ident;
                let (ids, tys, named) = body(&v.fields);
                let pat = if ids.is_empty() && matches!(v.fields, Fields::Unit) {
                    quote!(Self::#vn)
                } else if named { quote!(Self::#vn { #(#ids),* }) } else { quote!(Self::#vn ( #(#ids),* )) };
                sers.push(quote! { #pat => { serdes::ExpSerde::serialize_into(&#i, &mut writer)?; #( serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* } });
                des.push(quote! { #i => { #( let #ids = <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?; )* Ok(#pat) } });
            }
            (
                quote! { match self { #(#sers)* } Ok(()) },
                quote! { match <u8 as serdes::ExpSerde>::deserialize_from(&mut reader)? { #(#des)* _ => Err(serdes::SerdeError::DeserializeError) } },
            )
        }
        _ => panic!("unions unsupported"),
    };
    quote! {
        impl #ig serdes::ExpSerde for #name #tg #wc {
            fn serialize_into<VpW: std::io::Write>(&self, mut writer: VpW) -> serdes::SerdeResult<()> { #ser }
            fn deserialize_from<VpR: std::io::Read>(mut reader: VpR) -> serdes::SerdeResult<Self> { #de }
        }
    }
    .into()
}
