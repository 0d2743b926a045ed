//! Non-generic wrappers around starry's generic entry points, compiled with the same atomic
//! instrumentation as starry itself (generic code is instantiated in the crate that calls it).
use starry::utils::concurrent::ThreadPool;

pub fn execute(pool: &ThreadPool, f: Box<dyn FnOnce() + Send + 'static>) -> bool {
    pool.execute(move || f()).is_ok()
}

pub fn listen(s: &starry::HttpServer, port: u16) {
    let _ = s.listener(("0.0.0.0", port));
}

/// Listen on the first usable of the addresses; returns only when that fails.
pub fn listen_at(s: &starry::HttpServer, addrs: &[std::net::SocketAddr]) -> Result<(), String> {
    s.listener(addrs).map_err(|e| e.to_string())
}
pub fn listen_text(s: &starry::HttpServer, addr: &str) -> Result<(), String> {
    s.listener(addr).map_err(|e| e.to_string())
}

/// `Thread::spawn`, `spawn_on_name`, `spawn_on_custom`.
pub fn spawn(way: usize, name: &str, stack: usize, f: Box<dyn FnOnce() -> u64 + Send + 'static>) -> Option<std::thread::JoinHandle<u64>> {
    use starry::utils::concurrent::Thread;
    match way {
        0 => Thread::spawn(move || f()).ok(),
        1 => Thread::spawn_on_name(name.to_string(), move || f()).ok(),
        _ => Thread::spawn_on_custom(name.to_string(), stack, move || f()).ok(),
    }
}
