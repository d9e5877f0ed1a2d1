// Notices a call that never returns: a case that is still running after the limit ends the process
// with exit code 3 after printing the case.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Watch { n: Arc<AtomicU64>, cur: Arc<Mutex<String>>, file: Option<std::fs::File> }

impl Watch {
    pub fn start(limit_s: u64, crumb: Option<&str>) -> Watch {
        let n = Arc::new(AtomicU64::new(0));
        let cur = Arc::new(Mutex::new(String::new()));
        let (n2, c2) = (n.clone(), cur.clone());
        std::thread::spawn(move || {
            let mut last = u64::max_value();
            let mut same = 0;
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let k = n2.load(Ordering::SeqCst);
                if k == u64::max_value() { return }
                if k == last { same += 1 } else { same = 0; last = k }
                if same >= 2 * limit_s && k > 0 {
                    println!("TIMEOUT {}", c2.lock().unwrap());
                    use std::io::Write;
                    std::io::stdout().flush().ok();
                    std::process::exit(3);
                }
            }
        });
        Watch { n, cur, file: crumb.map(|p| std::fs::File::create(p).unwrap()) }
    }
    /// Marks the start of a case; the crumb file keeps it in case the process dies.
    pub fn at(&self, _i: u64, what: &str) {
        *self.cur.lock().unwrap() = what.to_string();
        self.n.fetch_add(1, Ordering::SeqCst);
        if let Some(f) = &self.file {
            use std::os::unix::fs::FileExt;
            let b = what.as_bytes();
            let k = b.len().min(100000);
            f.write_all_at(&(k as u64).to_le_bytes(), 0).ok();
            f.write_all_at(&b[..k], 8).ok();
        }
    }
    pub fn done(&self) { self.n.store(u64::max_value(), Ordering::SeqCst) }
}
