//! Capturing the standard output of code under test.
use std::io::Write;
use std::sync::Mutex;

static SAVED: Mutex<Option<i32>> = Mutex::new(None);

/// Run f with file descriptor 1 redirected to a scratch file in the current directory and return
/// what was printed.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let path = format!("stdout-{}.txt", std::process::id());
    std::io::stdout().flush().ok();
    unsafe {
        let saved = libc::dup(1);
        *SAVED.lock().unwrap() = Some(saved);
        let c = std::ffi::CString::new(path.clone()).unwrap();
        let fd = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_RDWR, 0o600);
        assert!(fd >= 0);
        libc::dup2(fd, 1);
        libc::close(fd);
    }
    let r = f();
    restore_stdout();
    let s = std::fs::read_to_string(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    (r, s)
}

pub fn restore_stdout() {
    std::io::stdout().flush().ok();
    if let Ok(mut s) = SAVED.lock() {
        if let Some(fd) = s.take() {
            unsafe {
                libc::dup2(fd, 1);
                libc::close(fd);
            }
        }
    }
}
