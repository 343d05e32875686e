//! TcpSimulator against a stand-in for the simulator: this very program, started in a directory that holds a file `mode`
use super::Drv;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use tpm2_client::connection::{Connection, SimulatorPlatformSignal, TcpSimulator};


/// the stand-in: notes its arguments, writes the port files, notes what arrives where
pub fn stand_in() -> ! {
    let mode = std::fs::read_to_string("mode").unwrap_or_default();
    // an address of its own for every scenario: no other may take over a port that is to refuse
    let ip = std::fs::read_to_string("ip").unwrap_or_default();
    let put = |n: &str, t: String| { let _ = std::fs::write(format!("{n}.tmp"), t); let _ = std::fs::rename(format!("{n}.tmp"), n); };
    put("pid", std::process::id().to_string());
    put("args", format!("{:?}", std::env::args_os().skip(1).collect::<Vec<_>>()));
    let end = Instant::now() + Duration::from_secs(60);
    let hang = || -> ! { while Instant::now() < end { std::thread::sleep(Duration::from_millis(50)); } std::process::exit(0) };
    let (Ok(t), Ok(p)) = (TcpListener::bind((&ip[..], 0)), TcpListener::bind((&ip[..], 0))) else { put("net", "no".into()); hang() };
    let port = |l: &TcpListener| l.local_addr().map(|a| a.port()).unwrap_or(0);
    let (a, b) = (port(&t), port(&p));
    // whoever makes up a port instead of reporting an error is heard on the usual ones
    let _usual = (!matches!(mode.as_str(), "" | "refuse")).then(|| [2321u16, 2322].map(|p| TcpListener::bind((&ip[..], p))));
    match mode.as_str() {
        "none" => hang(),
        "one" => { put("command.port", a.to_string()); hang() }
        "bad" => { put("command.port", a.to_string()); put("platform.port", format!("{}", 65536 + b as u32)); hang() }
        "empty" => { put("command.port", a.to_string()); put("platform.port", String::new()); hang() }
        "minus" => { put("platform.port", b.to_string()); put("command.port", format!("-{a}")); hang() }
        "two" => { put("platform.port", b.to_string()); put("command.port", format!("{a}\n{b}\n")); hang() }
        "word" => { put("platform.port", b.to_string()); put("command.port", "port".into()); hang() }
        "refuse" => { drop((t, p)); put("command.port", a.to_string()); put("platform.port", b.to_string()); hang() }
        _ => {}
    }
    if mode == "late" { std::thread::sleep(Duration::from_millis(800)); }
    put("platform.port", if mode == "space" { format!("  {b}\r\n") } else { format!("{b}\n") });
    if mode == "late" { std::thread::sleep(Duration::from_millis(800)); }
    put("command.port", if mode == "space" { format!("\t{a} \n") } else { a.to_string() });
    let (Ok((mut t, _)), Ok((mut p, _))) = (t.accept(), p.accept()) else { hang() };
    if mode == "gone" {
        // unread data at closing time: both connections are reset
        while !Path::new("close").exists() && Instant::now() < end { std::thread::sleep(Duration::from_millis(5)); }
        std::thread::sleep(Duration::from_millis(100));
        drop((t, p));
        put("closed", "yes".into());
        hang()
    }
    let stays = mode == "stays";
    let side = move |s: &mut TcpStream, n: &str| {
        let mut log = vec![];
        let mut w = [0u8; 4];
        while s.read_exact(&mut w).is_ok() {
            log.extend_from_slice(&w);
            // SetAlternativeResult carries a word of its own
            if w == [0, 0, 0, 16] && s.read_exact(&mut w).is_ok() { log.extend_from_slice(&w); }
            let _ = std::fs::write(format!("{n}.log"), super::hex(&log));
            if w == [0, 0, 0, 21] { break; }
            let _ = s.write_all(&[0; 4]);
        }
    };
    let h = std::thread::spawn(move || side(&mut t, "tpm"));
    side(&mut p, "plat");
    let _ = h.join();
    put("done", "yes".into());
    if stays { hang() }
    std::process::exit(0)
}

fn alive(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{pid}/stat")) { Ok(s) => !matches!(s.rsplit(')').next().unwrap_or("").trim().chars().next(), Some('Z' | 'X') | None), Err(_) => false }
}
fn wait(f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(10) { if f() { return true; } std::thread::sleep(Duration::from_millis(10)); }
    false
}
struct Dir(PathBuf);
impl Dir { fn text(&self, n: &str) -> String { std::fs::read_to_string(self.0.join(n)).unwrap_or_default() } fn pid(&self) -> Option<u32> { self.text("pid").parse().ok() } }
impl Drop for Dir {
    fn drop(&mut self) {
        if let Some(p) = self.pid() { if alive(p) { let _ = std::process::Command::new("kill").arg("-9").arg(p.to_string()).status(); } }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// one scenario; Err((function, what is wrong))
fn scenario(k: usize, mode: &str, args: &[&str]) -> Result<(), (String, String)> {
    let bad = |f: &str, m: String| Err((f.to_string(), format!("stand-in \"{mode}\", arguments {args:?}: {m}")));
    let ip = format!("127.0.81.{}", k + 1);
    let d = Dir(std::env::temp_dir().join(format!("verif-sim-{}-{k}", std::process::id())));
    if std::fs::create_dir_all(&d.0).is_err() || std::fs::write(d.0.join("mode"), mode).is_err() || std::fs::write(d.0.join("ip"), &ip).is_err() { return Ok(()); }
    let bin = if mode == "nobin" { d.0.join("absent") } else { match std::env::current_exe() { Ok(b) => b, Err(_) => return Ok(()) } };
    let t0 = Instant::now();
    let (tx, rx) = std::sync::mpsc::channel();
    let (own, dir): (Vec<String>, PathBuf) = (args.iter().map(|s| s.to_string()).collect(), d.0.clone());
    std::thread::spawn(move || { let _ = tx.send(TcpSimulator::new(bin, &own, &dir, &ip)); });
    let r = match rx.recv_timeout(Duration::from_secs(45)) { Ok(r) => r, Err(_) => return bad("TcpSimulator::new", "does not come back within 45 s".into()) };
    if d.0.join("net").exists() { return Ok(()); }
    let fails = matches!(mode, "nobin" | "none" | "one" | "bad" | "empty" | "minus" | "two" | "word" | "refuse");
    match r {
        Ok(_) if fails => bad("TcpSimulator::new", "succeeded".into()),
        Err(_) if fails => {
            if mode == "nobin" { return Ok(()); }
            // the process was started (or was killed before it got anywhere): it must not be left running
            std::thread::sleep(Duration::from_millis(200));
            match d.pid() { Some(p) if !wait(|| !alive(p)) => bad("TcpSimulator::new", format!("reported an error after {:?} and left the process running", t0.elapsed())), _ => Ok(()) }
        }
        Err(e) => if !wait(|| d.pid().is_some()) { bad("TcpSimulator::new", format!("failed ({e}); nothing was started in the directory given")) } else { bad("TcpSimulator::new", format!("failed: {e}")) },
        Ok(mut s) => {
            let want = format!("{:?}", args.iter().map(std::ffi::OsString::from).collect::<Vec<_>>());
            if d.text("args") != want { return bad("TcpSimulator::new", format!("the process got the arguments {}", d.text("args"))); }
            let Some(pid) = d.pid() else { return Ok(()) };
            if !alive(pid) { return bad("TcpSimulator::new", "the process does not run".into()); }
            if mode == "gone" {
                // bytes the stand-in never reads; then it closes both connections
                let _ = std::fs::write(d.0.join("close"), "");
                let c = s.connection_mut();
                let mut b = [0u8; 16];
                let _ = c.transact(&[0; 10], &mut b);
                if !wait(|| d.0.join("closed").exists()) { return Ok(()); }
                std::thread::sleep(Duration::from_millis(100));
                let stopped = s.stop_nicely();
                drop(s);
                if stopped.is_err() && !wait(|| !alive(pid)) { return bad("drop of TcpSimulator", "the connection is lost and the process was not killed".into()); }
                return Ok(());
            }
            s.connection_mut().set_locality(3);
            for (m, r) in [("30", s.connection_mut().test_failure_mode()), ("2", s.connection_mut().platform_signal(SimulatorPlatformSignal::PowerOff)), ("16", s.connection_mut().set_alternative_result(7))] {
                if let Err(e) = r { return bad("TcpSimulator::connection_mut", format!("command {m} failed: {e}")); }
            }
            if !format!("{:?}", s.connection()).contains("locality: 3") { return bad("TcpSimulator::connection", "is not the connection connection_mut gives".into()); }
            let (mut tpm, mut plat) = ("0000001000000007".to_string(), "0000001e00000002".to_string());
            if mode == "kill" {
                if let Err(e) = s.stop() { return bad("TcpSimulator::stop", format!("failed: {e}")); }
                if !wait(|| !alive(pid)) { return bad("TcpSimulator::stop", "the process still runs".into()); }
            } else {
                tpm += "00000015"; plat += "00000015";
                if mode == "nicely" || mode == "stays" {
                    if let Err(e) = s.stop_nicely() { return bad("TcpSimulator::stop_nicely", format!("failed: {e}")); }
                    wait(|| d.0.join("done").exists());
                    if mode == "stays" && !alive(pid) { return bad("TcpSimulator::stop_nicely", "killed the process".into()); }
                    let again = s.stop_nicely().is_err();
                    drop(s);
                    if mode == "stays" && again && !wait(|| !alive(pid)) { return bad("drop of TcpSimulator", "it can no longer be asked to stop and the process was not killed".into()); }
                } else { drop(s); }
                if !wait(|| d.0.join("done").exists()) { return bad("drop of TcpSimulator", "the simulator was not told to stop on both interfaces".into()); }
            }
            if d.text("tpm.log") != tpm { return bad("TcpSimulator", format!("the port in command.port received {}, {tpm} expected", d.text("tpm.log"))); }
            if d.text("plat.log") != plat { return bad("TcpSimulator", format!("the port in platform.port received {}, {plat} expected", d.text("plat.log"))); }
            Ok(())
        }
    }
}

impl Drv {
    pub fn simulators(&mut self) {
        const ALL: [(&str, &[&str]); 18] = [("", &[]), ("", &["a b", "", "-m"]), ("space", &["x"]), ("late", &["late"]), ("nicely", &["1", "2"]), ("stays", &[]), ("kill", &["k"]), ("gone", &[]),
            ("nobin", &[]), ("none", &[]), ("one", &["o"]), ("bad", &[]), ("empty", &[]), ("minus", &[]), ("two", &[]), ("word", &[]), ("refuse", &["r"]), ("", &["--", "\u{e9}"])];
        let h: Vec<_> = ALL.into_iter().enumerate().map(|(k, (m, a))| // what fails is tried again, so that a machine under load is not taken for a fault
            std::thread::spawn(move || scenario(k, m, a).or_else(|_| scenario(k + 100, m, a)))).collect();
        for x in h {
            self.cases += 1;
            match x.join() { Ok(Ok(())) => {}, Ok(Err((f, m))) => self.fail("C21", &f, m), Err(_) => self.fail("C21", "TcpSimulator", "panicked".into()) }
        }
    }
}
