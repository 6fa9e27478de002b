pub mod alloc;
pub mod answers;
pub mod cli;
pub mod crypto;
pub mod der;
#[macro_use]
pub mod engine;
pub mod gen;
pub mod lit;
pub mod props;
pub mod sshk;
pub mod wire;

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;
