//! A program for tests to run: `r TEST SLOT CODES ...` writes its words to `log/TEST` and ends
//! with the n-th of CODES, separated by `_`, when it is run for the n-th time with that slot.
//! The code `k` kills the shell that runs it, `sN` itself with signal N, and with `eN` it copies its
//! input to its output before it ends with N. With `vN` it also writes down its directory and the
//! variables of its environment whose names begin with `VL_`.
//! With `wN` it ends with N (or `k`) once there is a file `go/TEST.ATTEMPT` or `go/all`, with `bN` after
//! a few milliseconds, with `oN` after having printed much, with `lN` with 0 after N milliseconds. With
//! `nN` it does not end by itself: it sleeps (0), ignoring signals (1), or with a child (2), having
//! closed its output (3), or ends, but leaves a child (5) that holds its output, or (6) that does not;
//! with `n9` it ends all the same. `q0` sleeps. These write events, `B` and `E` (begin, end, of `w b o l
//! n`) and `P` (a process that does not end by itself) to `events`.
use std::io::Write;

unsafe extern "C" {
    fn kill(pid: i32, signal: i32) -> i32;
    fn getpid() -> i32;
    fn getppid() -> i32;
    fn close(fd: i32) -> i32;
    fn signal(signal: i32, handler: usize) -> usize;
}

fn event(dir: &std::path::Path, what: &str, test: &str, n: usize) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("../events")).expect("events");
    f.write_all(format!("{what} {test} {n}\n").as_bytes()).expect("events");
}

fn sleep(ms: u64) {
    std::thread::sleep(std::time::Duration::from_millis(ms));
}

/// Until it is killed, or nobody does
fn hang(dir: &std::path::Path, test: &str) -> ! {
    event(dir, "P", test, std::process::id() as usize);
    sleep(200_000);
    std::process::exit(0)
}

fn timed(dir: &std::path::Path, test: &str, n: usize, code: &str) -> ! {
    let (kind, rest) = code.split_at(1);
    if kind == "q" {
        hang(dir, test);
    }
    event(dir, "B", test, n + 1);
    match kind {
        "w" => {
            for i in 0..60_000 {
                let there = |f: String| dir.join("../go").join(f).exists();
                if there(format!("{test}.{}", n + 1)) || (i % 16 == 0 && there("all".into())) {
                    break;
                }
                sleep(1);
            }
        }
        "b" => sleep(std::process::id() as u64 * 7 % 11),
        "l" => sleep(rest.parse().unwrap_or(0)),
        "o" => {
            let line = [b'x'; 999];
            for _ in 0..300 {
                std::io::stdout().write_all(&line).expect("output");
                std::io::stderr().write_all(&line).expect("output");
            }
        }
        _ => {
            let child = |quiet: bool| {
                let mut c = std::process::Command::new(std::env::args_os().next().expect("name"));
                c.args([test, "c", "q0"]);
                if quiet {
                    c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
                }
                c.spawn().expect("child")
            };
            match rest {
                "1" => [1, 2, 3, 13, 14, 15].map(|s| unsafe { signal(s, 1) }).len(),
                "2" => child(false).id() as usize,
                "3" => unsafe { (close(0) + close(1) + close(2)) as usize },
                "5" | "6" => {
                    drop(child(rest == "6"));
                    event(dir, "E", test, n + 1);
                    std::process::exit(0)
                }
                "9" => std::process::exit(0),
                _ => 0,
            };
            hang(dir, test)
        }
    }
    event(dir, "E", test, n + 1);
    if rest == "k" {
        unsafe { kill(getppid(), 9) };
    }
    std::process::exit(if kind == "l" { 0 } else { rest.parse().unwrap_or(0) })
}

pub fn run() -> ! {
    let args: Vec<Vec<u8>> = std::env::args_os().skip(1).map(|a| a.into_encoded_bytes()).collect();
    let word = |i: usize| args.get(i).cloned().unwrap_or_default();
    let test = String::from_utf8(word(0)).unwrap_or_default();
    let named = !test.is_empty() && test.bytes().all(|b| b.is_ascii_alphanumeric());
    let dir = std::env::var_os("RECORDER_LOG").unwrap_or("log".into());
    let path = std::path::Path::new(&dir).join(if named { &test } else { "stray" });
    let before = std::fs::read(&path).unwrap_or_default();
    let prefix = [word(0), word(1)].join(&0x1f);
    let n = before.split(|b| *b == 0x1e).filter(|r| r.starts_with(&prefix) && r.get(prefix.len()) == Some(&0x1f)).count();
    let mut words = args.clone();
    if word(2).starts_with(b"v") {
        words.push(std::env::current_dir().expect("directory").into_os_string().into_encoded_bytes());
        let mut vars: Vec<_> = std::env::vars_os()
            .map(|(k, v)| [k.into_encoded_bytes(), v.into_encoded_bytes()].join(&b'='))
            .filter(|v| v.starts_with(b"VL_"))
            .collect();
        vars.sort();
        words.extend(vars);
    }
    let mut record = words.join(&0x1f);
    record.push(0x1e);
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&path).expect("log");
    f.write_all(&record).expect("log");
    drop(f);
    let codes = String::from_utf8(word(2)).unwrap_or_default();
    let codes: Vec<&str> = codes.split('_').collect();
    match codes[n.min(codes.len() - 1)] {
        c if c.starts_with(['w', 'b', 'l', 'o', 'n', 'q']) => timed(dir.as_ref(), &test, n, c),
        "k" => unsafe {
            kill(getppid(), 9);
            std::process::exit(0)
        },
        c if c.starts_with('s') => unsafe {
            let n = c[1..].parse().unwrap_or(0);
            signal(n, 0);
            kill(getpid(), n);
            std::process::exit(0)
        },
        c if c.starts_with('e') => {
            std::io::copy(&mut std::io::stdin(), &mut std::io::stdout()).expect("copy");
            std::process::exit(c[1..].parse().unwrap_or(0))
        }
        c if c.starts_with('v') => std::process::exit(c[1..].parse().unwrap_or(0)),
        c => std::process::exit(c.parse().unwrap_or(0)),
    }
}

/// `say PIECES ...` writes the pieces: `o` or `e` for the output each goes to, and `=TEXT` for a line of
/// text, `-TEXT` for text, `xHEX` for bytes, `z` for much. With a last `=N` it ends with N, `=k` kills the
/// shell that runs it, and with `=h` it does not end by itself.
pub fn say() -> ! {
    for a in std::env::args_os().skip(1).map(|a| a.into_encoded_bytes()) {
        if a[0] == b'=' {
            match std::str::from_utf8(&a[1..]).unwrap_or_default() {
                "k" => unsafe {
                    kill(getppid(), 9);
                },
                "h" => sleep(200_000),
                n => std::process::exit(n.parse().unwrap_or(0)),
            }
            break;
        }
        let mut bytes = a[2..].to_vec();
        match a[1] {
            b'=' => bytes.push(b'\n'),
            b'x' => bytes = bytes.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect(),
            b'z' => bytes = vec![b'z'; 200_000],
            _ => {}
        }
        let wrote = if a[0] == b'o' {
            let mut f = std::io::stdout();
            f.write_all(&bytes).and_then(|_| f.flush())
        } else {
            std::io::stderr().write_all(&bytes)
        };
        wrote.expect("output");
    }
    std::process::exit(0)
}
