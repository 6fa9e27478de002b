#[path = "../../hw/src/props/fido.rs"]
#[allow(dead_code)]
mod fido;
#[path = "../../hw/src/hid.rs"]
#[allow(dead_code)]
mod hid;
mod hidapi;
mod props;

fn main() {
    if hid::link() > 1 || hidapi::link() > 1 {
        return;
    }
    vharness::cli::run(props::properties, |_| None);
}
