mod hid;
mod pcsc;
mod props;

fn main() {
    if pcsc::link() > 100 || hid::link() > 1 {
        return;
    }
    // The root certificate the library is built with for the emulated tokens.
    if std::env::args().nth(1).as_deref() == Some("root") {
        print!("{}", hid::root_pem());
        return;
    }
    vharness::cli::run(props::all, |_| None);
}
