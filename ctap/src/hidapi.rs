//! What hidapi needs of libudev and the system beyond hid.rs.

use crate::hid::*;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

// The last argument of open(2) is only there for some flags; reading it is harmless.
std::arch::global_asm!(".globl open", "open:", "jmp {f}", f = sym open_any);
/// # Safety
/// As open(2).
pub unsafe extern "C" fn open_any(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Ok(p) = CStr::from_ptr(path).to_str() {
        if let Some(n) = p.strip_prefix(PREFIX).and_then(|x| x.parse::<usize>().ok()) {
            return open_hid(n);
        }
        if let Some(x) = p.strip_prefix("/sys/verif/hidraw") {
            let Some((n, what)) = x.split_once('/') else { return errno(libc::ENOENT) };
            let kind = n.parse::<usize>().ok().and_then(|n| current().and_then(|b| b.toks.lock().unwrap_or_else(|e| e.into_inner()).get(n).map(|t| t.kind)));
            let (Some(kind), "device/report_descriptor") = (kind, what) else { return errno(libc::ENOENT) };
            let d = report_descriptor(kind == Kind::Keyboard);
            let fd = libc::memfd_create(c"report".as_ptr(), libc::MFD_CLOEXEC);
            if fd >= 0 {
                libc::syscall(libc::SYS_write, fd, d.as_ptr(), d.len());
                libc::lseek(fd, 0, libc::SEEK_SET);
            }
            return fd;
        }
    }
    libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub extern "C" fn udev_device_get_parent_with_subsystem_devtype(d: *mut Device, _: *const c_char, _: *const c_char) -> *mut Device {
    // One object stands for the device and its parents.
    d
}
#[no_mangle]
pub extern "C" fn udev_device_new_from_devnum(_: *mut c_void, _: c_char, _: libc::dev_t) -> *mut Device {
    std::ptr::null_mut()
}
pub fn link() -> c_long {
    udev_device_get_parent_with_subsystem_devtype(std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) as c_long
}
