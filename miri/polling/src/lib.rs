//! Stands in for the crate polling 2.8 under Miri, which does not know the raw system calls that crate makes.
//! The same interface (as far as the repository uses it) and the same one-shot meaning of the interests.
use std::collections::HashMap;
use std::io;
use std::os::fd::{AsRawFd, RawFd};
use std::sync::Mutex;
use std::time::Duration;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Event {
    pub key: usize,
    pub readable: bool,
    pub writable: bool,
}
impl Event {
    pub fn all(key: usize) -> Event {
        Event { key, readable: true, writable: true }
    }
    pub fn readable(key: usize) -> Event {
        Event { key, readable: true, writable: false }
    }
    pub fn writable(key: usize) -> Event {
        Event { key, readable: false, writable: true }
    }
    pub fn none(key: usize) -> Event {
        Event { key, readable: false, writable: false }
    }
}

pub trait Source {
    fn raw(&self) -> RawFd;
}
impl Source for RawFd {
    fn raw(&self) -> RawFd {
        *self
    }
}
impl<T: AsRawFd> Source for &T {
    fn raw(&self) -> RawFd {
        self.as_raw_fd()
    }
}

#[derive(Debug)]
pub struct Poller {
    ep: RawFd,
    wake: RawFd,
    known: Mutex<HashMap<RawFd, (Event, bool)>>,
}

fn ok(r: libc::c_int) -> io::Result<libc::c_int> {
    if r < 0 { Err(io::Error::last_os_error()) } else { Ok(r) }
}

impl Poller {
    pub fn new() -> io::Result<Poller> {
        let ep = ok(unsafe { libc::epoll_create1(libc::EPOLL_CLOEXEC) })?;
        let wake = ok(unsafe { libc::eventfd(0, libc::EFD_CLOEXEC | libc::EFD_NONBLOCK) })?;
        let p = Poller { ep, wake, known: Mutex::default() };
        let mut e = libc::epoll_event { events: (libc::EPOLLIN | libc::EPOLLET) as u32, u64: u64::MAX };
        ok(unsafe { libc::epoll_ctl(ep, libc::EPOLL_CTL_ADD, wake, &mut e) })?;
        Ok(p)
    }
    fn register(&self, fd: RawFd, ev: Event, was: bool) -> io::Result<()> {
        if was {
            ok(unsafe { libc::epoll_ctl(self.ep, libc::EPOLL_CTL_DEL, fd, std::ptr::null_mut()) })?;
        }
        let mut flags = libc::EPOLLET;
        if ev.readable {
            flags |= libc::EPOLLIN | libc::EPOLLRDHUP;
        }
        if ev.writable {
            flags |= libc::EPOLLOUT;
        }
        let mut e = libc::epoll_event { events: flags as u32, u64: fd as u64 };
        ok(unsafe { libc::epoll_ctl(self.ep, libc::EPOLL_CTL_ADD, fd, &mut e) })?;
        Ok(())
    }
    pub fn add(&self, s: impl Source, ev: Event) -> io::Result<()> {
        let mut k = self.known.lock().unwrap();
        self.register(s.raw(), ev, false)?;
        k.insert(s.raw(), (ev, true));
        Ok(())
    }
    pub fn modify(&self, s: impl Source, ev: Event) -> io::Result<()> {
        let mut k = self.known.lock().unwrap();
        let was = k.get(&s.raw()).map_or(false, |x| x.1);
        self.register(s.raw(), ev, was)?;
        k.insert(s.raw(), (ev, true));
        Ok(())
    }
    pub fn delete(&self, s: impl Source) -> io::Result<()> {
        let mut k = self.known.lock().unwrap();
        if let Some((_, true)) = k.remove(&s.raw()) {
            ok(unsafe { libc::epoll_ctl(self.ep, libc::EPOLL_CTL_DEL, s.raw(), std::ptr::null_mut()) })?;
        }
        Ok(())
    }
    pub fn wait(&self, events: &mut Vec<Event>, timeout: Option<Duration>) -> io::Result<usize> {
        let ms = timeout.map_or(-1, |t| (t.as_micros() as u64).div_ceil(1000).min(1 << 30) as i32);
        let mut buf: [libc::epoll_event; 8] = [libc::epoll_event { events: 0, u64: 0 }; 8];
        let n = ok(unsafe { libc::epoll_wait(self.ep, buf.as_mut_ptr(), 8, ms) })?;
        let mut k = self.known.lock().unwrap();
        let mut out = 0;
        for e in &buf[..n as usize] {
            let (d, f) = (e.u64, e.events as i32);
            if d == u64::MAX {
                let mut x = [0u8; 8];
                unsafe { libc::read(self.wake, x.as_mut_ptr().cast(), 8) };
                continue;
            }
            let Some(x) = k.get_mut(&(d as RawFd)) else { continue };
            if !x.1 {
                continue;
            }
            // one-shot
            x.1 = false;
            ok(unsafe { libc::epoll_ctl(self.ep, libc::EPOLL_CTL_DEL, d as RawFd, std::ptr::null_mut()) })?;
            let bad = f & (libc::EPOLLERR | libc::EPOLLHUP) != 0;
            events.push(Event { key: x.0.key, readable: bad || f & (libc::EPOLLIN | libc::EPOLLRDHUP) != 0, writable: bad || f & libc::EPOLLOUT != 0 });
            out += 1;
        }
        Ok(out)
    }
    pub fn notify(&self) -> io::Result<()> {
        let x = 1u64.to_ne_bytes();
        unsafe { libc::write(self.wake, x.as_ptr().cast(), 8) };
        Ok(())
    }
}
impl Drop for Poller {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.wake);
            libc::close(self.ep);
        }
    }
}
