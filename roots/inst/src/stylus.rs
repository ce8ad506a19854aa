use alloy_primitives::{Address, B256, U256};
use openzeppelin_stylus::token::erc1155::extensions::{Erc1155MetadataUri, Erc1155UriStorage};
use openzeppelin_stylus::token::erc20::{extensions::Erc20Permit, Erc20};
use openzeppelin_stylus::token::erc721::extensions::{
    Erc721Enumerable, Erc721Metadata, Erc721UriStorage,
};
use openzeppelin_stylus::token::erc721::{self, Erc721};
use openzeppelin_stylus::utils::cryptography::{ecdsa, eip712::IEip712};
use openzeppelin_stylus::utils::nonces::Nonces;
use stylus_sdk::prelude::*;

pub fn enum_add(e: &mut Erc721Enumerable, a: Address, t: U256, n: &Erc721) -> Result<(), erc721::Error> {
    e._add_token_to_owner_enumeration(a, t, n)
}
pub fn enum_remove(e: &mut Erc721Enumerable, a: Address, t: U256, n: &Erc721) -> Result<(), erc721::Error> {
    e._remove_token_from_owner_enumeration(a, t, n)
}
pub fn meta_uri(m: &Erc721Metadata, t: U256, n: &Erc721) -> Result<String, erc721::Error> {
    m.token_uri(t, n)
}
pub fn storage_uri(u: &Erc721UriStorage, t: U256, n: &Erc721, m: &Erc721Metadata) -> Result<String, erc721::Error> {
    u.token_uri(t, n, m)
}
pub fn uri1155(u: &Erc1155UriStorage, t: U256, m: &Erc1155MetadataUri) -> String {
    u.uri(t, m)
}
pub fn set_uri1155(u: &mut Erc1155UriStorage, t: U256, s: String, m: &Erc1155MetadataUri) {
    u.set_token_uri(t, s, m)
}

/// An EIP-712 domain as an application would define it.
#[storage]
pub struct Domain {}
impl IEip712 for Domain {
    const NAME: &'static str = "Verified domain";
    const VERSION: &'static str = "7";
}
pub fn domain(d: &Domain) -> B256 {
    d.domain_separator_v4()
}
pub fn domain_parts(d: &Domain) -> ([u8; 1], String, String, U256, Address, [u8; 32], Vec<U256>) {
    d.eip712_domain()
}
pub fn typed_hash(d: &Domain, h: B256) -> B256 {
    d.hash_typed_data_v4(h)
}
pub fn permit_domain(p: &Erc20Permit<Domain>) -> B256 {
    p.domain_separator()
}
#[allow(clippy::too_many_arguments)]
pub fn permit(p: &mut Erc20Permit<Domain>, o: Address, s: Address, v: U256, d: U256, y: u8, r: B256, z: B256, t: &mut Erc20, n: &mut Nonces) -> bool {
    p.permit(o, s, v, d, y, r, z, t, n).is_ok()
}
pub fn recover(p: &mut Erc20Permit<Domain>, h: B256, y: u8, r: B256, z: B256) -> Result<Address, ecdsa::Error> {
    ecdsa::recover(p, h, y, r, z)
}
