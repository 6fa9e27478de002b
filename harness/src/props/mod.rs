pub mod certs;
pub mod common;
pub mod fido;
pub mod keys;
pub mod more;
pub mod privs;
pub mod signers;
pub mod robust;
pub mod sigs;
pub mod wires;
pub mod x509;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(certs::properties());
    v.extend(keys::properties());
    v.extend(privs::properties());
    v.extend(sigs::properties());
    v.extend(wires::properties());
    v.extend(signers::properties());
    v.extend(x509::properties());
    v.extend(fido::properties());
    v.extend(robust::properties());
    v.extend(more::properties());
    v.sort_by_key(|p| p.id);
    v
}
