//! Objective-function process for the process-level checks: connects to the driver, says who it is and does what the
//! driver tells it.  Ends when the driver goes away.
use std::io::{BufRead, BufReader, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::net::UnixStream;
use std::process::{Command, Stdio};

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn getpgrp() -> i32;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::from("x");
    for c in b {
        s.push_str(&format!("{:02x}", c));
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn put(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let k = unsafe { write(fd, b.as_ptr() as *const _, b.len()) };
        if k <= 0 {
            return;
        }
        b = &b[k as usize..];
    }
}

fn main() {
    let me = std::env::current_exe().unwrap();
    let sock = std::env::var_os("CAMB_SOCK").unwrap_or_else(|| unsafe { _exit(97) });
    let s = match UnixStream::connect(&sock) {
        Ok(s) => s,
        Err(_) => unsafe { _exit(98) },
    };
    let mut w = s.try_clone().unwrap();
    let grand = std::env::var("CAMB_GRAND").ok();
    let pid = std::process::id();
    let pgid = unsafe { getpgrp() };
    let line = match &grand {
        Some(p) => format!("G {} {} {}\n", pid, pgid, p),
        None => {
            let a: Vec<String> = std::env::args_os().map(|x| hex(x.as_bytes())).collect();
            format!("H {} {} {}\n", pid, pgid, a.join(" "))
        }
    };
    w.write_all(line.as_bytes()).unwrap();
    let mut r = BufReader::new(s);
    loop {
        let mut l = String::new();
        match r.read_line(&mut l) {
            Ok(0) | Err(_) => unsafe { _exit(99) },
            _ => (),
        }
        let f: Vec<&str> = l.trim_end().split(' ').collect();
        match f[0] {
            "T" => unsafe {
                for sig in [1, 2, 3, 15] {
                    signal(sig, 1);
                }
            },
            "F" => {
                let n: usize = f[1].parse().unwrap();
                for _ in 0..n {
                    let mut c = Command::new(&me);
                    c.env("CAMB_GRAND", pid.to_string()).stdin(Stdio::null());
                    if f[2] == "quiet" {
                        c.stdout(Stdio::null()).stderr(Stdio::null());
                    }
                    c.spawn().unwrap();
                }
            }
            "O" => put(f[1].parse().unwrap(), &unhex(f[2])),
            // a lot of output: the byte, repeated
            "L" => {
                let b = vec![unhex(f[2])[0]; 65536];
                for _ in 0..f[3].parse::<usize>().unwrap() {
                    put(f[1].parse().unwrap(), &b);
                }
            }
            "C" => unsafe {
                close(f[1].parse().unwrap());
            },
            "X" => {
                w.write_all(b"bye\n").ok();
                unsafe { _exit(f[1].parse().unwrap()) }
            }
            "K" => {
                w.write_all(b"bye\n").ok();
                unsafe {
                    signal(f[1].parse().unwrap(), 0);
                    kill(pid as i32, f[1].parse().unwrap());
                }
            }
            _ => unsafe { _exit(96) },
        }
        w.write_all(b"ok\n").ok();
    }
}
