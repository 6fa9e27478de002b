pub mod fido;
pub mod piv;

use vharness::engine::Property;

pub fn all() -> Vec<Property> {
    fido::properties().into_iter().chain(piv::properties()).collect()
}
