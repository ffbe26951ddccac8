//! derive(CanonicalSerialize), derive(CanonicalDeserialize) for structs.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};

fn members(d: &DeriveInput) -> Vec<proc_macro2::TokenStream> {
    let Data::Struct(s) = &d.data else { panic!("structs only") };
    s.fields
        .iter()
        .enumerate()
        .map(|(i, f)| match &f.ident {
            Some(n) => quote!(#n),
            None => {
                let i = Index::from(i);
                quote!(#i)
            }
        })
        .collect()
}

#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let m = members(&d);
    quote! {
        impl #ig ::ark_serialize::CanonicalSerialize for #name #tg #wc {
            fn serialize_with_mode<__W: ::ark_serialize::Write>(&self, mut w: __W, c: ::ark_serialize::Compress) -> Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#m, &mut w, c)?; )*
                Ok(())
            }
            fn serialized_size(&self, c: ::ark_serialize::Compress) -> usize {
                0 #( + ::ark_serialize::CanonicalSerialize::serialized_size(&self.#m, c) )*
            }
        }
    }
    .into()
}

#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let m = members(&d);
    let Data::Struct(s) = &d.data else { panic!("structs only") };
    let build = match &s.fields {
        Fields::Named(_) => quote!(#name { #( #m: ::ark_serialize::CanonicalDeserialize::deserialize_with_mode(&mut r, c, v)?, )* }),
        Fields::Unnamed(f) => {
            let k = f.unnamed.iter().map(|_| quote!(::ark_serialize::CanonicalDeserialize::deserialize_with_mode(&mut r, c, v)?));
            quote!(#name ( #( #k ),* ))
        }
        Fields::Unit => quote!(#name),
    };
    quote! {
        impl #ig ::ark_serialize::Valid for #name #tg #wc {
            fn check(&self) -> Result<(), ::ark_serialize::SerializationError> {
                #( ::ark_serialize::Valid::check(&self.#m)?; )*
                Ok(())
            }
        }
        impl #ig ::ark_serialize::CanonicalDeserialize for #name #tg #wc {
            fn deserialize_with_mode<__R: ::ark_serialize::Read>(mut r: __R, c: ::ark_serialize::Compress, v: ::ark_serialize::Validate) -> Result<Self, ::ark_serialize::SerializationError> {
                Ok(#build)
            }
        }
    }
    .into()
}
